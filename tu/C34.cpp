#include "vt.hpp"
#include <stdex/uuid.hpp>
#define PARSE(S, T) extern "C" bool h_parse_##S(const T *s, size_t n, uuid_t &id) { return stdex::strtouuid(s, n, id); }
PARSE(c, char) PARSE(w, wchar_t) PARSE(h, char16_t)
extern "C" void h_fmt_c(char *s, const uuid_t &id) { stdex::uuidtostr(s, id); }
extern "C" void h_fmt_w(wchar_t *s, const uuid_t &id) { stdex::uuidtostr(s, id); }
