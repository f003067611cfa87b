#pragma once
// refuse.h: run code that may refuse its precondition, by an exception or by
// ending the program, and say what it did. The code must own nothing: when it
// ends the program its frames are left without unwinding.
#include <csetjmp>
#include <csignal>
#include <exception>
#include <stdexcept>
namespace vt {
	inline thread_local sigjmp_buf refuse_jmp;
	inline thread_local bool refuse_armed = false;
	inline std::terminate_handler refuse_old = nullptr;
	inline void refuse_back( ) {
		refuse_armed = false;
		siglongjmp( refuse_jmp, 1 );
	}
	// 0: ran to the end; 1: refused (terminate, abort, trap or exception of a
	// range, argument or logic kind); 2: another exception
	template<typename F>
	int refused( F f ) {
		struct sigaction sa { }, olda { }, oldi { }, oldt { };
		sa.sa_handler = []( int s ) {
			if( refuse_armed ) {
				refuse_back( );
			}
			std::signal( s, SIG_DFL );
			std::raise( s );
		};
		sa.sa_flags = SA_NODEFER;
		sigaction( SIGABRT, &sa, &olda );
		sigaction( SIGILL, &sa, &oldi );
		sigaction( SIGTRAP, &sa, &oldt );
		auto old = std::set_terminate( [] {
			if( refuse_armed ) {
				refuse_back( );
			}
			std::abort( );
		} );
		int volatile result = 0;
		refuse_armed = true;
		if( sigsetjmp( refuse_jmp, 1 ) == 0 ) {
			try {
				f( );
			} catch( std::logic_error const & ) {
				result = 1;
			} catch( ... ) {
				result = 2;
			}
		} else {
			result = 1;
		}
		refuse_armed = false;
		std::set_terminate( old );
		sigaction( SIGABRT, &olda, nullptr );
		sigaction( SIGILL, &oldi, nullptr );
		sigaction( SIGTRAP, &oldt, nullptr );
		return result;
	}
} // namespace vt
