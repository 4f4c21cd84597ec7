// The copy of fast_float that comes with Boost.JSON, under its usual name.
#pragma once
#include <boost/assert.hpp>
#include <boost/json/detail/charconv/detail/fast_float/fast_float.hpp>
namespace fast_float = boost::json::detail::charconv::detail::fast_float;
