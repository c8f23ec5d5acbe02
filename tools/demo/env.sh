# sourced by demo.sh: scratch directory, MPI settings and compile helper
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl_vader_backing_directory=$tmp
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export TMPDIR=$tmp HOME=$tmp
build() { # config program.cpp [flags]: links the program with the library of that configuration
  local b=/repo/_build/$1/src l="" d=""; case $1 in fftw3-double) l=-lfftw3;; fftw3-single) l=-lfftw3f;; esac
  case $1 in *single) d=-DFFT_SINGLE;; *) d=-DFFT_DOUBLE;; esac
  mpicxx -std=c++11 -O1 -w $d ${3:-} -I"$b" -o "$tmp/$(basename "$2" .cpp)" "$here/$2" "$b/libfft3dmpi.a" "$b/libfft2dmpi.a" $l || exit 9
}
case_file() { # np case: the real library under the real MPI
  timeout 120 mpirun -n "$1" "$tmp/drv" "$here/$2"
}
