#ifndef _H_WORKER_POOL_MPI_WORKER
#define _H_WORKER_POOL_MPI_WORKER
#include <boost/mpi.hpp>
#include "runlog.hh"
inline int main_mpi_worker(shared_ptr<boost::mpi::communicator> w) { if (!w) throw std::runtime_error("a worker without processes"); ++run_log.workers; return run_log.worker_returns; }
#endif
