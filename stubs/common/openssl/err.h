#pragma once
inline unsigned long ERR_get_error() { return 0; }
inline const char* ERR_reason_error_string(unsigned long) { return "openssl error"; }
