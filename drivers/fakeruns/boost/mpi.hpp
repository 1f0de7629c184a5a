#ifndef VERIF_RUN_MPI
#define VERIF_RUN_MPI
#include "runlog.hh"
namespace boost { namespace mpi {
namespace threading { enum level { single, funneled, serialized, multiple }; }
struct environment { environment(int &, char **&, bool = true) {} environment(int &, char **&, threading::level, bool = true) {} environment(threading::level = threading::single) {} static void abort(int) {} };
struct communicator { int rank() const { return run_log.rank; } int size() const { return 4; } void barrier() const {} };
} }
#endif
