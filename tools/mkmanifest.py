#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (regenerates it byte for byte).
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "Trusts the simulated MPI in /verif/sim (MPI-standard semantics, 1-40 ranks), the long-double reference and the stated tolerance; covers generated cases only, not all inputs."
N = {
 "C01": "PBT: generated grids/tilings/options vs independent long-double DFT",
 "C02": "PBT: generated grids/tilings/options vs independent long-double DFT",
 "C03": "PBT: generated histories vs independent long-double inverse DFT, round trip",
 "C04": "PBT: generated histories vs independent long-double inverse DFT, round trip",
 "C05": "PBT: generated tilings, bit-exact element-wise oracle",
 "C06": "PBT: generated tilings, bit-exact element-wise oracle",
 "C07": "metamorphic PBT: same problem under sampled option combinations",
 "C08": "PBT under ASan/UBSan with exact-size guarded buffers",
 "C09": "schedule fuzzing of a simulated MPI: calm vs adversarial schedules, bit-exact comparison",
 "C10": "stateful PBT: interleaved instance histories, per-call oracle, solo-run attribution",
 "C11": "PBT with simulated clocks: trial-plan model, agreement, differential against setup()",
 "C12": "PBT: injected invalid requests and valid (also huge) ones, all-ranks outcome oracle",
 "C13": "PBT: partial operations, bit-exact movement oracle, 1d DFT reference",
 "C14": "differential stateful PBT: C interface vs C++ twin",
 "C15": "differential stateful PBT: shipped Fortran modules vs C++ twin",
 "C16": "stateful PBT: repeated life cycles with resource accounting",
 "C17": "PBT: sweep of 2-3-5-smooth lengths and data classes vs long-double DFT",
 "C18": "PBT: reported sizes/statistics vs decomposition model and guarded use",
 "C20": "fault injection PBT: one generated memory request fails during setup or tune",
 "C21": "PBT on a byte-counting simulated MPI: per-process traffic of generated operations vs option pattern and tiling overlap",
 "C19": "stateful PBT: generated histories of the Python classes vs recording C stubs",
}
checks = []
for i, t in sorted(N.items()):
    checks.append(dict(property=i, quick_cmd="python3 -m vf.main " + i, thorough_cmd="python3 -m vf.main %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique=t, level="exploration", level_note=SIM if i != "C19" else "src/fftmpi.py is executed under Python 3 (Python 2 print/raise statements rewritten) on recording stand-ins of the C functions and of mpi4py."))
m = dict(version=1, setup_cmd="python3 -m vf.build", checks=checks,
         not_applicable=[],
         notes="No hooks are needed in /repo: the checks compile /repo/src against a simulated mpi.h.")
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
