// Streams for the replay harnesses: a byte source / sink over memory with random short transfers, faults and call records.
#pragma once
#include "oracle.hpp"
#include <stdex/stream.hpp>
namespace orc {
	struct mem_stream : stdex::stream::basic {
		std::string in, out; size_t pos = 0; bool shorts = true; size_t fail_read_at = SIZE_MAX, fail_write_at = SIZE_MAX; size_t calls = 0, flushes = 0, closes = 0;
		size_t read(void *data, size_t n) override {
			calls++; if (!n) { m_state = stdex::stream::state_t::ok; return 0; }
			if (pos >= fail_read_at) { m_state = stdex::stream::state_t::fail; return 0; }
			size_t k = in.size() - pos; if (k > fail_read_at - pos) k = fail_read_at - pos;
			if (!k) { m_state = stdex::stream::state_t::eof; return 0; }
			if (k > n) k = n; if (shorts && k > 1 && chance(1, 2)) k = 1 + rnd(k);
			memcpy(data, in.data() + pos, k); pos += k; m_state = stdex::stream::state_t::ok; return k; }
		size_t write(const void *data, size_t n) override {
			calls++; size_t k = n; if (out.size() + k > fail_write_at) k = fail_write_at > out.size() ? fail_write_at - out.size() : 0;
			if (shorts && k > 1 && chance(1, 2)) k = 1 + rnd(k);
			out.append((const char*)data, k); m_state = k || !n ? stdex::stream::state_t::ok : stdex::stream::state_t::fail; return k; }
		void flush() override { flushes++; m_state = stdex::stream::state_t::ok; }
		void close() override { closes++; m_state = stdex::stream::state_t::ok; }
	};
	static inline std::string blob(size_t n) { auto v = bytes(n); return std::string(v.begin(), v.end()); }
	// exactly sized heap block, so that the sanitizer sees every access outside it
	struct block { char *p; size_t n; block(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); } block(const block&) = delete; ~block() { delete[] p; } operator char*() { return p; } std::string str() const { return std::string(p, n); } };
}
