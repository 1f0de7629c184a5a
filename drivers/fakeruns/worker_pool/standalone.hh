#ifndef _H_WORKER_POOL_STANDALONE
#define _H_WORKER_POOL_STANDALONE
#include "runlog.hh"
struct StandaloneWorkerPool : RunPool { StandaloneWorkerPool(shared_ptr<StoreFactoryInterface>, int = -1, unsigned int = 0) {} StandaloneWorkerPool(StoreType, int = -1, unsigned int = 0) {} };
#endif
