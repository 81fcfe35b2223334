// Entry points of the analysis.  This file is compiled to LLVM IR together
// with the library and is never executed: it lets the abstract interpreter
// construct, call and destroy every public class through the compiler's own
// name lookup, default arguments, conversions and virtual dispatch.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#define protected public
#include <strigi/bufferedstream.h>
#undef protected
#include <strigi/arinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/kmpsearcher.h>
#include <strigi/lzmainputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/processinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/stringstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/tarinputstream.h>
#include <strigi/textutils.h>
#include <strigi/zipinputstream.h>
#include "base64inputstream.h"
#include "dostime.h"
#include "gzipcompressstream.h"
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include "skippingfileinputstream2.h"
using namespace Strigi;

extern "C" {
// ---- the stream interface
int32_t h_read(InputStream* s, const char** start, int32_t min, int32_t max) { return s->read(*start, min, max); }
int64_t h_skip(InputStream* s, int64_t n) { return s->skip(n); }
int64_t h_reset(InputStream* s, int64_t p) { return s->reset(p); }
void h_del(InputStream* s) { delete s; }
int h_status(InputStream* s) { return s->status(); }
int64_t h_size(InputStream* s) { return s->size(); }
int64_t h_pos(InputStream* s) { return s->position(); }
const char* h_error(InputStream* s) { return s->error(); }
int32_t hr_read(Reader* s, const wchar_t** start, int32_t min, int32_t max) { return s->read(*start, min, max); }
int64_t hr_skip(Reader* s, int64_t n) { return s->skip(n); }
int64_t hr_reset(Reader* s, int64_t p) { return s->reset(p); }
void hr_del(Reader* s) { delete s; }
int hr_status(Reader* s) { return s->status(); }
int64_t hr_size(Reader* s) { return s->size(); }
int64_t hr_pos(Reader* s) { return s->position(); }
const char* hr_error(Reader* s) { return s->error(); }
// ---- the provider interface
InputStream* h_next(SubStreamProvider* p) { return p->nextEntry(); }
InputStream* h_cur(SubStreamProvider* p) { return p->currentEntry(); }
int h_pstatus(SubStreamProvider* p) { return p->status(); }
const char* h_perror(SubStreamProvider* p) { return p->error(); }
int64_t h_entrysize(SubStreamProvider* p) { return p->entryInfo().size; }
int64_t h_entrymtime(SubStreamProvider* p) { return p->entryInfo().mtime; }
int h_entrytype(SubStreamProvider* p) { return p->entryInfo().type; }
const std::string* h_entryname(SubStreamProvider* p) { return &p->entryInfo().filename; }
void h_pdel(SubStreamProvider* p) { delete p; }
// ---- construction
InputStream* new_sub(InputStream* i, int64_t size) { return new SubInputStream(i, size); }
InputStream* new_term(InputStream* i, const std::string* t) { return new StringTerminatedSubStream(i, *t); }
InputStream* new_gzip(InputStream* i) { return new GZipInputStream(i); }
InputStream* new_zlib(InputStream* i) { return new GZipInputStream(i, GZipInputStream::ZLIBFORMAT); }
InputStream* new_deflate(InputStream* i) { return new GZipInputStream(i, GZipInputStream::ZIPFORMAT); }
InputStream* new_bz2(InputStream* i) { return new BZ2InputStream(i); }
InputStream* new_lzma(InputStream* i) { return new LZMAInputStream(i); }
InputStream* new_gzipc(InputStream* i) { return new GZipCompressInputStream(i); }
InputStream* new_base64(InputStream* i) { return new Base64InputStream(i); }
InputStream* new_encoding(InputStream* i, const char* in, const char* out) { return new EncodingInputStream(i, in, out); }
InputStream* new_process(const std::vector<std::string>* a, InputStream* i) { return new ProcessInputStream(*a, i); }
InputStream* new_dataevent(InputStream* i, DataEventHandler* h) { return new DataEventInputStream(i, *h); }
Reader* new_reader(InputStream* i, const char* enc) { return new InputStreamReader(i, enc); }
InputStream* new_file(const char* path) { return new FileInputStream(path); }
InputStream* new_filep(FILE* f, const char* path) { return new FileInputStream(f, path); }
InputStream* new_mmap(const char* path) { return new MMapFileInputStream(path); }
InputStream* new_skipfile(const char* path) { return new SkippingFileInputStream(path); }
InputStream* new_skipfile2(const char* path) { return new SkippingFileInputStream2(path); }
InputStream* new_skipfile2p(FILE* f, const char* path) { return new SkippingFileInputStream2(f, path); }
InputStream* new_string(const char* v, int32_t len, bool copy) { return new StringInputStream(v, len, copy); }
Reader* new_wstring(const wchar_t* v, int32_t len, bool copy) { return new StringStream<wchar_t>(v, len, copy); }
SubStreamProvider* new_tar(InputStream* i) { return new TarInputStream(i); }
SubStreamProvider* new_ar(InputStream* i) { return new ArInputStream(i); }
SubStreamProvider* new_cpio(InputStream* i) { return new CpioInputStream(i); }
SubStreamProvider* new_zip(InputStream* i) { return new ZipInputStream(i); }
SubStreamProvider* new_ole(InputStream* i) { return new OleInputStream(i); }
SubStreamProvider* new_rpm(InputStream* i) { return new RpmInputStream(i); }
SubStreamProvider* new_mail(InputStream* i) { return new MailInputStream(i); }
SubStreamProvider* new_sdf(InputStream* i) { return new SdfInputStream(i); }
// ---- buffered streams: the base class over any fillBuffer that keeps its
// contract, and the fillBuffer of each class by itself
int32_t hb_fill(void* start, int64_t bytes, int32_t space);
bool hb_any();
void hb_called(int32_t space);
void hb_end();
void hb_stop();
}
template <class T> struct AnyBuffered : BufferedStream<T> {
    int64_t total;
    AnyBuffered(int32_t minbuf, int64_t declared) :total(0) {
        this->m_size = declared;
        if (minbuf > 0) this->setMinBufSize(minbuf);
    }
    int32_t fillBuffer(T* start, int32_t space) {
        hb_called(space);
        if (this->m_size == total) { hb_end(); return -1; }
        int32_t n = hb_fill(start, (int64_t)space * (int64_t)sizeof(T), space);
        if (n == -2) {
            this->m_status = Error;
            this->m_error = "failed";
            return hb_any() ?-1 :-2;
        }
        if (n < 0) {
            if (this->m_size != -1) hb_stop();
            return -1;
        }
        total += n;
        if (this->m_size != -1 && total > this->m_size) hb_stop();
        // the end may be known before it is reached
        if (this->m_size == -1 && hb_any()) this->m_size = total;
        return n;
    }
};
extern "C" {
InputStream* new_buffered(int32_t minbuf, int64_t declared) { return new AnyBuffered<char>(minbuf, declared); }
Reader* new_bufferedw(int32_t minbuf, int64_t declared) { return new AnyBuffered<wchar_t>(minbuf, declared); }
int32_t h_fill(InputStream* s, char* start, int32_t space) { return static_cast<BufferedInputStream*>(s)->fillBuffer(start, space); }
int32_t hr_fill(Reader* s, wchar_t* start, int32_t space) { return static_cast<BufferedReader*>(s)->fillBuffer(start, space); }
// ---- static header probes: any data of any length
bool chk_tar(const char* d, int32_t n) { return TarInputStream::checkHeader(d, n); }
bool chk_ar(const char* d, int32_t n) { return ArInputStream::checkHeader(d, n); }
bool chk_cpio(const char* d, int32_t n) { return CpioInputStream::checkHeader(d, n); }
bool chk_zip(const char* d, int32_t n) { return ZipInputStream::checkHeader(d, n); }
bool chk_ole(const char* d, int32_t n) { return OleInputStream::checkHeader(d, n); }
bool chk_rpm(const char* d, int32_t n) { return RpmInputStream::checkHeader(d, n); }
bool chk_mail(const char* d, int32_t n) { return MailInputStream::checkHeader(d, n); }
bool chk_sdf(const char* d, int32_t n) { return SdfInputStream::checkHeader(d, n); }
bool chk_gzip(const char* d, int32_t n) { return GZipInputStream::checkHeader(d, n); }
bool chk_bz2(const char* d, int32_t n) { return BZ2InputStream::checkHeader(d, n); }
bool chk_lzma(const char* d, int32_t n) { return LZMAInputStream::checkHeader(d, n); }
// ---- integer readers
#define RD(T, N) \
    T rd_##N(const char* c) { return read##N(c); } \
    T rdu_##N(const unsigned char* c) { return read##N(c); }
RD(int16_t, BigEndianInt16) RD(uint16_t, BigEndianUInt16) RD(int32_t, BigEndianInt32)
RD(uint32_t, BigEndianUInt32) RD(int64_t, BigEndianInt64) RD(uint64_t, BigEndianUInt64)
RD(int16_t, LittleEndianInt16) RD(uint16_t, LittleEndianUInt16) RD(int32_t, LittleEndianInt32)
RD(uint32_t, LittleEndianUInt32) RD(int64_t, LittleEndianInt64) RD(uint64_t, LittleEndianUInt64)
// ---- text helpers
const char* ut_check3(const char* p, int32_t n, char* nb) { return checkUtf8(p, n, *nb); }
bool ut_check(const char* p, int32_t n) { return checkUtf8(p, n); }
bool ut_checks(const std::string* s) { return checkUtf8(*s); }
void b64_decode(const char* in, std::string::size_type n) { std::string s = Base64InputStream::decode(in, n); }
long dos_time(unsigned long t) { return (long)dos2unixtime(t); }
}
