// instantiates the serialization templates of /repo with the archives that the code uses
#include <boost/mpi/packed_iarchive.hpp>
#include <boost/mpi/packed_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <string>
#include "config/config_node.hh"
#include "utils/serialization_tuple.hh"
typedef boost::mpi::packed_oarchive O;
typedef boost::mpi::packed_iarchive I;
namespace boost { namespace serialization {
template void serialize<O>(O &, ConfigNode &, const unsigned int);
template void serialize<I>(I &, ConfigNode &, const unsigned int);
template void serialize<O, unsigned, unsigned>(O &, std::tuple<unsigned, unsigned> &, const unsigned int);
template void serialize<I, unsigned, unsigned>(I &, std::tuple<unsigned, unsigned> &, const unsigned int);
template void serialize<O, std::string, std::string>(O &, std::tuple<std::string, std::string> &, const unsigned int);
template void serialize<I, std::string, std::string>(I &, std::tuple<std::string, std::string> &, const unsigned int);
}}
