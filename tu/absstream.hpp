// Abstract streams: classes whose virtual operations are declared only; the contract scripts supply their specification at the call.
#pragma once
#include "vt.hpp"
#include <stdex/stream.hpp>
struct AS : stdex::stream::basic {
	virtual void key_();
	size_t read(void *data, size_t length) override;
	size_t write(const void *data, size_t length) override;
	void flush() override;
	void close() override;
	void skip(stdex::stream::fsize_t amount) override;
};
struct AF : stdex::stream::basic_file {
	virtual void key_();
	size_t read(void *data, size_t length) override;
	size_t write(const void *data, size_t length) override;
	void flush() override;
	void close() override;
	void skip(stdex::stream::fsize_t amount) override;
	stdex::stream::fpos_t seek(stdex::stream::foff_t offset, stdex::stream::seek_t how) override;
	stdex::stream::fpos_t tell() const override;
	stdex::stream::fsize_t size() const override;
	void truncate() override;
	void lock(stdex::stream::fpos_t offset, stdex::stream::fsize_t length) override;
	void unlock(stdex::stream::fpos_t offset, stdex::stream::fsize_t length) override;
	stdex::stream::time_point ctime() const override;
	stdex::stream::time_point atime() const override;
	stdex::stream::time_point mtime() const override;
	void set_ctime(stdex::stream::time_point date) override;
	void set_atime(stdex::stream::time_point date) override;
	void set_mtime(stdex::stream::time_point date) override;
};
void AS::key_() {}
void AF::key_() {}
SIZEOF(as, AS)
SIZEOF(af, AF)
FIELD(as_state, AS, m_state)
extern "C" void mk_as(AS *p) { new (p) AS(); }
extern "C" void mk_af(AF *p) { new (p) AF(); }
extern "C" void *h_as_basic(AS *p) { return static_cast<stdex::stream::basic*>(p); }
extern "C" void *h_af_basic(AF *p) { return static_cast<stdex::stream::basic*>(p); }
