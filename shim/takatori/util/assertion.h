#pragma once
#include <cassert>
#ifndef BOOST_ENABLE_ASSERT_HANDLER
#include <boost/assert.hpp>
#endif
