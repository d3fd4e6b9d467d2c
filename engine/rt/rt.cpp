// Plain C++ definitions of the libstdc++ out-of-line functions which the code
// under test can reach, so that they exist as bitcode.
#include <exception>
#include <stdexcept>
#include <new>
#include <string>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <optional>
#include <variant>
#include <list>

namespace std
{
    exception::~exception() noexcept {}
    char const * exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    char const * bad_alloc::what() const noexcept { return "bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    char const * bad_array_new_length::what() const noexcept { return "b"; }
    bad_function_call::~bad_function_call() noexcept {}
    char const * bad_function_call::what() const noexcept { return "bfc"; }
    bad_cast::~bad_cast() noexcept {}
    char const * bad_cast::what() const noexcept { return "bad_cast"; }

    // The message of an exception is not modelled: what() is a fixed text.
    __cow_string::__cow_string() : _M_p(nullptr) {}
    __cow_string::__cow_string(std::string const &) : _M_p(nullptr) {}
    __cow_string::__cow_string(char const *, size_t) : _M_p(nullptr) {}
    __cow_string::__cow_string(__cow_string const &) noexcept : _M_p(nullptr) {}
    __cow_string::~__cow_string() {}
    __cow_string & __cow_string::operator=(__cow_string const &) noexcept
    { return *this; }
    __cow_string::__cow_string(__cow_string &&) noexcept : _M_p(nullptr) {}
    __cow_string & __cow_string::operator=(__cow_string &&) noexcept
    { return *this; }

#define VP_EXC(C, B)                                             \
    C::C(std::string const & s) : B(s) {}                        \
    C::C(char const * s) : B(s) {}                               \
    C::~C() noexcept {}

    logic_error::logic_error(std::string const &) : _M_msg() {}
    logic_error::logic_error(char const *) : _M_msg() {}
    logic_error::logic_error(logic_error const &) noexcept : _M_msg() {}
    logic_error::~logic_error() noexcept {}
    char const * logic_error::what() const noexcept { return "logic_error"; }
    VP_EXC(domain_error, logic_error)
    VP_EXC(invalid_argument, logic_error)
    VP_EXC(length_error, logic_error)
    VP_EXC(out_of_range, logic_error)
    runtime_error::runtime_error(std::string const &) : _M_msg() {}
    runtime_error::runtime_error(char const *) : _M_msg() {}
    runtime_error::runtime_error(runtime_error const &) noexcept : _M_msg() {}
    runtime_error::~runtime_error() noexcept {}
    char const * runtime_error::what() const noexcept { return "runtime_error"; }
    VP_EXC(range_error, runtime_error)
    VP_EXC(overflow_error, runtime_error)
    VP_EXC(underflow_error, runtime_error)

    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(char const * s) { throw logic_error(s); }
    void __throw_length_error(char const * s) { throw length_error(s); }
    void __throw_out_of_range(char const * s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(char const * s, ...) { throw out_of_range(s); }
    void __throw_invalid_argument(char const * s) { throw invalid_argument(s); }
    void __throw_runtime_error(char const * s) { throw runtime_error(s); }

    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base * const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _M_next->_M_prev = _M_prev;
            _M_prev->_M_next = _M_next;
        }
        void _List_node_base::_M_transfer(_List_node_base * const f,
                                          _List_node_base * const l) noexcept
        {
            if (this != l) {
                l->_M_prev->_M_next = this;
                f->_M_prev->_M_next = l;
                this->_M_prev->_M_next = f;
                auto t = this->_M_prev;
                this->_M_prev = l->_M_prev;
                l->_M_prev = f->_M_prev;
                f->_M_prev = t;
            }
        }
    }
}
