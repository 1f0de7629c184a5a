// stands in for the pool when one worker is examined alone
#ifndef _H_MPI_THREAD_POOL
#define _H_MPI_THREAD_POOL
#include "block_iterator.hh"
#include "store/store_factory.hh"
#include "threaded/thread.hh"
using std::deque; using std::map; using std::mutex; using std::vector; using std::set; using std::shared_ptr; using std::tuple;
class ThreadPool : public std::enable_shared_from_this<ThreadPool> {
public:
  void finished_block(vuu_block block);
};
#endif
