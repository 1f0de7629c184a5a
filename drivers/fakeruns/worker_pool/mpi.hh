#ifndef _H_WORKER_POOL_MPI
#define _H_WORKER_POOL_MPI
#include <boost/mpi.hpp>
#include "runlog.hh"
struct MPIWorkerPool : RunPool { MPIWorkerPool(shared_ptr<boost::mpi::communicator>, StoreType, int = -1, unsigned int = 0) {} static constexpr unsigned int master_process_id = 0; };
#endif
