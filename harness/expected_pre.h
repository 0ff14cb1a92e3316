// expected.hpp names facilities of the standard library (and its own classes) as members of nanostl, which the library
// does not provide: a program that wants to use nanoexpected.h supplies them, as here.
#ifndef EXPECTED_PRE_H_
#define EXPECTED_PRE_H_
#include <exception>
#include <functional>
#include <new>
#include <system_error>
#include <type_traits>
#include "nano_pre.h"
#include "nanocstddef.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanomemory.h"
#include "nanoexception.h"
namespace nonstd {
namespace expected_lite {
template <class E>
class unexpected_type;
template <class T, class E>
class expected;
}  // namespace expected_lite
}  // namespace nonstd
namespace nanostl {
using nonstd::expected_lite::expected;
using nonstd::expected_lite::unexpected_type;
using std::current_exception;
using std::error_code;
using std::exception_ptr;
using std::is_base_of;
using std::make_exception_ptr;
using std::rethrow_exception;
using std::system_error;
}  // namespace nanostl
#include "nanoexpected.h"
// declared by the library and defined nowhere
namespace nanostl {
exception::exception() __NANOSTL_NOEXCEPT {}
exception::exception(const exception &) __NANOSTL_NOEXCEPT {}
exception &exception::operator=(const exception &) __NANOSTL_NOEXCEPT { return *this; }
exception::~exception() __NANOSTL_NOEXCEPT {}
const char *exception::what() const __NANOSTL_NOEXCEPT { return "exception"; }
}  // namespace nanostl
#endif
