#include <node_api.h>
#include <string>
extern "C" const char* rt_call(const char*);
static napi_value call(napi_env e, napi_callback_info i) {
  size_t n = 1, len; napi_value a, r; napi_get_cb_info(e, i, &n, &a, nullptr, nullptr); napi_get_value_string_utf8(e, a, nullptr, 0, &len);
  std::string s(len, 0); napi_get_value_string_utf8(e, a, &s[0], len + 1, &len); napi_create_string_utf8(e, rt_call(s.c_str()), NAPI_AUTO_LENGTH, &r); return r;
}
static napi_value init(napi_env e, napi_value x) { napi_value f; napi_create_function(e, "call", NAPI_AUTO_LENGTH, call, nullptr, &f); napi_set_named_property(e, x, "call", f); return x; }
NAPI_MODULE(rtbot, init)
