// Interface of llhttp 9.2.1 as far as the server uses it (the library itself is not available here, see llhttp_sim.c)
#ifndef LLHTTP_SIM_H
#define LLHTTP_SIM_H
#include <stddef.h>
#include <stdint.h>
typedef enum {
  HPE_OK                        = 0,
  HPE_INTERNAL                  = 1,
  HPE_STRICT                    = 2,
  HPE_CR_EXPECTED               = 25,
  HPE_LF_EXPECTED               = 3,
  HPE_UNEXPECTED_CONTENT_LENGTH = 4,
  HPE_UNEXPECTED_SPACE          = 30,
  HPE_CLOSED_CONNECTION         = 5,
  HPE_INVALID_METHOD            = 6,
  HPE_INVALID_URL               = 7,
  HPE_INVALID_CONSTANT          = 8,
  HPE_INVALID_VERSION           = 9,
  HPE_INVALID_HEADER_TOKEN      = 10,
  HPE_INVALID_CONTENT_LENGTH    = 11,
  HPE_INVALID_CHUNK_SIZE        = 12,
  HPE_INVALID_STATUS            = 13,
  HPE_INVALID_EOF_STATE         = 14,
  HPE_INVALID_TRANSFER_ENCODING = 15,
  HPE_CB_MESSAGE_BEGIN          = 16,
  HPE_CB_HEADERS_COMPLETE       = 17,
  HPE_CB_MESSAGE_COMPLETE       = 18,
  HPE_CB_CHUNK_HEADER           = 19,
  HPE_CB_CHUNK_COMPLETE         = 20,
  HPE_PAUSED                    = 21,
  HPE_PAUSED_UPGRADE            = 22,
  HPE_PAUSED_H2_UPGRADE         = 23,
  HPE_USER                      = 24,
  HPE_CB_URL_COMPLETE           = 26,
  HPE_CB_STATUS_COMPLETE        = 27,
  HPE_CB_METHOD_COMPLETE        = 32,
  HPE_CB_VERSION_COMPLETE       = 33,
  HPE_CB_HEADER_FIELD_COMPLETE  = 28,
  HPE_CB_HEADER_VALUE_COMPLETE  = 29
} llhttp_errno_t;
typedef enum { HTTP_BOTH = 0, HTTP_REQUEST = 1, HTTP_RESPONSE = 2 } llhttp_type_t;
typedef enum { HTTP_DELETE = 0, HTTP_GET = 1, HTTP_HEAD = 2, HTTP_POST = 3, HTTP_PUT = 4, HTTP_CONNECT = 5, HTTP_OPTIONS = 6, HTTP_TRACE = 7, HTTP_PATCH = 28 } llhttp_method_t;
typedef struct llhttp__internal_s llhttp_t;
typedef int (*llhttp_data_cb)(llhttp_t*, const char* at, size_t length);
typedef int (*llhttp_cb)(llhttp_t*);
typedef struct {
  llhttp_cb      on_message_begin;
  llhttp_data_cb on_protocol, on_url, on_status, on_method, on_version, on_header_field, on_header_value, on_chunk_extension_name, on_chunk_extension_value;
  llhttp_cb      on_headers_complete;
  llhttp_data_cb on_body;
  llhttp_cb      on_message_complete, on_protocol_complete, on_url_complete, on_status_complete, on_method_complete, on_version_complete, on_header_field_complete, on_header_value_complete, on_chunk_extension_name_complete, on_chunk_extension_value_complete;
  llhttp_cb      on_chunk_header, on_chunk_complete, on_reset;
} llhttp_settings_t;
struct llhttp__internal_s {
  int32_t     error;
  const char* reason;
  const char* error_pos;
  void*       data;
  uint64_t    content_length;
  uint8_t     type, method, http_major, http_minor, upgrade, finish;
  uint16_t    flags;
  void*       settings;
  int         st;        // state of the simulated parser
  int         sub;
  uint64_t    chunk;
  char        tok[64];   // method, version or lower case header name so far
  int         ntok;
  char        val[64];   // start of the header value
  int         nval;
  int         after;     // what follows after a pause
};
void           llhttp_settings_init(llhttp_settings_t* s);
void           llhttp_init(llhttp_t* p, llhttp_type_t type, const llhttp_settings_t* s);
void           llhttp_reset(llhttp_t* p);
llhttp_errno_t llhttp_execute(llhttp_t* p, const char* data, size_t len);
llhttp_errno_t llhttp_finish(llhttp_t* p);
int            llhttp_should_keep_alive(const llhttp_t* p);
int            llhttp_message_needs_eof(const llhttp_t* p);
void           llhttp_pause(llhttp_t* p);
void           llhttp_resume(llhttp_t* p);
llhttp_errno_t llhttp_get_errno(const llhttp_t* p);
const char*    llhttp_get_error_reason(const llhttp_t* p);
const char*    llhttp_get_error_pos(const llhttp_t* p);
void           llhttp_set_error_reason(llhttp_t* p, const char* r);
const char*    llhttp_errno_name(llhttp_errno_t e);
uint8_t        llhttp_get_method(llhttp_t* p);
uint8_t        llhttp_get_upgrade(llhttp_t* p);
const char*    llhttp_method_name(llhttp_method_t m);
#endif
