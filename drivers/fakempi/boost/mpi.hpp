// message passing between simulated processes: messages of one sender arrive in order, values travel as text archives
#ifndef VERIF_MPI
#define VERIF_MPI
namespace boost { namespace mpi {
constexpr int any_source = -1, any_tag = -1;
namespace threading { enum level { single, funneled, serialized, multiple }; }
struct Msg { int src, tag; std::string body; bool taken = false; };
struct World { int size = 1; bool synchronous = false; std::vector<std::list<std::shared_ptr<Msg>>> box; std::vector<std::list<std::shared_ptr<Msg>>> bcast; uint64_t sent = 0; };
inline World world;
struct status { int s = 0, t = 0; int source() const { return s; } int tag() const { return t; } int error() const { return 0; } };
struct environment { environment() {} environment(int &, char **&, bool = true) {} environment(int &, char **&, threading::level, bool = true) {} environment(threading::level) {} static void abort(int) {} };
struct communicator {
  int rank() const { return Sim::proc(); }
  int size() const { return world.size; }
  static std::shared_ptr<Msg> find(int src, int tag) { for (auto & m : world.box[Sim::proc()]) if ((src == any_source || m->src == src) && (tag == any_tag || m->tag == tag)) return m; return nullptr; }
  template<class T> static std::string pack(const T & v) { std::stringstream s; { boost::archive::text_oarchive o(s, boost::archive::no_header); o << v; } return s.str(); }
  template<class T> static void unpack(const std::string & b, T & v) { std::stringstream s(b); boost::archive::text_iarchive i(s, boost::archive::no_header); i >> v; }
  template<class T> void send(int dst, int tag, const T & v) const {
    Sim::point();
    if (dst < 0 || dst >= world.size || dst == Sim::proc()) { Sim::die("message to process " + std::to_string(dst)); return; }
    auto m = std::make_shared<Msg>(); m->src = Sim::proc(); m->tag = tag; m->body = pack(v); world.box[dst].push_back(m); ++world.sent;
    if (world.synchronous) Sim::block("its message to be received", [m] { return m->taken; }); else Sim::point();
  }
  void send(int dst, int tag) const { send(dst, tag, 0); }
  template<class T> status recv(int src, int tag, T & v) const {
    Sim::point(); int p = Sim::proc(); (void)p;
    while (!find(src, tag)) Sim::block("a message", [src, tag, p] { for (auto & m : world.box[p]) if ((src == any_source || m->src == src) && (tag == any_tag || m->tag == tag)) return true; return false; });
    auto m = find(src, tag); world.box[Sim::proc()].remove(m); m->taken = true;
    try { unpack(m->body, v); } catch (const std::exception & e) { Sim::die("a message of tag " + std::to_string(m->tag) + " is received as another type"); }
    Sim::point(); status s; s.s = m->src; s.t = m->tag; return s;
  }
  status recv(int src, int tag) const { int d; return recv(src, tag, d); }
  status probe(int src = any_source, int tag = any_tag) const {
    Sim::point(); int p = Sim::proc();
    while (!find(src, tag)) Sim::block("a message", [src, tag, p] { for (auto & m : world.box[p]) if ((src == any_source || m->src == src) && (tag == any_tag || m->tag == tag)) return true; return false; });
    auto m = find(src, tag); status s; s.s = m->src; s.t = m->tag; return s;
  }
  void barrier() const {}
};
template<class T> void broadcast(const communicator &, T & v, int root) {
  Sim::point(); int p = Sim::proc();
  if (p == root) { for (int i = 0; i < world.size; ++i) if (i != root) { auto m = std::make_shared<Msg>(); m->body = communicator::pack(v); world.bcast[i].push_back(m); } }
  else { while (world.bcast[p].empty()) Sim::block("a broadcast", [p] { return !world.bcast[p].empty(); }); auto m = world.bcast[p].front(); world.bcast[p].pop_front(); communicator::unpack(m->body, v); }
  Sim::point();
}
} }
#endif
