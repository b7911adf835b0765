#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/recursive_variant.hpp>
template class boost::variant<int, double>;
