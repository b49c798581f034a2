// Declarations of the yyjson interface used by the JSON adapter (yyjson is not installed here).
// Bodiless: the analysis answers the calls as yyjson's documentation says (checks/c23.py).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
extern "C" {
typedef struct yyjson_doc yyjson_doc;
typedef struct yyjson_val yyjson_val;
typedef struct yyjson_mut_doc yyjson_mut_doc;
typedef struct yyjson_mut_val yyjson_mut_val;
typedef struct yyjson_alc yyjson_alc;
typedef struct yyjson_obj_iter { size_t idx; size_t max; yyjson_val *cur; yyjson_val *obj; } yyjson_obj_iter;
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
#define YYJSON_WRITE_PRETTY 1
yyjson_doc *yyjson_read(const char *dat, size_t len, yyjson_read_flag flg) noexcept;
void yyjson_doc_free(yyjson_doc *doc) noexcept;
yyjson_val *yyjson_doc_get_root(yyjson_doc *doc) noexcept;
bool yyjson_is_null(yyjson_val *val) noexcept;
bool yyjson_is_true(yyjson_val *val) noexcept;
bool yyjson_is_false(yyjson_val *val) noexcept;
bool yyjson_is_bool(yyjson_val *val) noexcept;
bool yyjson_is_uint(yyjson_val *val) noexcept;
bool yyjson_is_sint(yyjson_val *val) noexcept;
bool yyjson_is_int(yyjson_val *val) noexcept;
bool yyjson_is_real(yyjson_val *val) noexcept;
bool yyjson_is_num(yyjson_val *val) noexcept;
bool yyjson_is_str(yyjson_val *val) noexcept;
bool yyjson_is_arr(yyjson_val *val) noexcept;
bool yyjson_is_obj(yyjson_val *val) noexcept;
bool yyjson_is_ctn(yyjson_val *val) noexcept;
bool yyjson_get_bool(yyjson_val *val) noexcept;
uint64_t yyjson_get_uint(yyjson_val *val) noexcept;
int64_t yyjson_get_sint(yyjson_val *val) noexcept;
int yyjson_get_int(yyjson_val *val) noexcept;
double yyjson_get_real(yyjson_val *val) noexcept;
double yyjson_get_num(yyjson_val *val) noexcept;
const char *yyjson_get_str(yyjson_val *val) noexcept;
size_t yyjson_get_len(yyjson_val *val) noexcept;
size_t yyjson_arr_size(yyjson_val *arr) noexcept;
yyjson_val *yyjson_arr_get(yyjson_val *arr, size_t idx) noexcept;
size_t yyjson_obj_size(yyjson_val *obj) noexcept;
yyjson_val *yyjson_obj_get(yyjson_val *obj, const char *key) noexcept;
yyjson_val *yyjson_obj_getn(yyjson_val *obj, const char *key, size_t key_len) noexcept;
bool yyjson_obj_iter_init(yyjson_val *obj, yyjson_obj_iter *iter) noexcept;
yyjson_val *yyjson_obj_iter_next(yyjson_obj_iter *iter) noexcept;
yyjson_val *yyjson_obj_iter_get_val(yyjson_val *key) noexcept;
char *yyjson_val_write(const yyjson_val *val, yyjson_write_flag flg, size_t *len) noexcept;
yyjson_mut_doc *yyjson_mut_doc_new(const yyjson_alc *alc) noexcept;
void yyjson_mut_doc_free(yyjson_mut_doc *doc) noexcept;
void yyjson_mut_doc_set_root(yyjson_mut_doc *doc, yyjson_mut_val *root) noexcept;
char *yyjson_mut_write(const yyjson_mut_doc *doc, yyjson_write_flag flg, size_t *len) noexcept;
yyjson_mut_val *yyjson_mut_null(yyjson_mut_doc *doc) noexcept;
yyjson_mut_val *yyjson_mut_bool(yyjson_mut_doc *doc, bool val) noexcept;
yyjson_mut_val *yyjson_mut_uint(yyjson_mut_doc *doc, uint64_t num) noexcept;
yyjson_mut_val *yyjson_mut_sint(yyjson_mut_doc *doc, int64_t num) noexcept;
yyjson_mut_val *yyjson_mut_real(yyjson_mut_doc *doc, double num) noexcept;
yyjson_mut_val *yyjson_mut_str(yyjson_mut_doc *doc, const char *str) noexcept;
yyjson_mut_val *yyjson_mut_strn(yyjson_mut_doc *doc, const char *str, size_t len) noexcept;
yyjson_mut_val *yyjson_mut_strcpy(yyjson_mut_doc *doc, const char *str) noexcept;
yyjson_mut_val *yyjson_mut_strncpy(yyjson_mut_doc *doc, const char *str, size_t len) noexcept;
yyjson_mut_val *yyjson_mut_arr(yyjson_mut_doc *doc) noexcept;
bool yyjson_mut_arr_add_val(yyjson_mut_val *arr, yyjson_mut_val *val) noexcept;
bool yyjson_mut_arr_append(yyjson_mut_val *arr, yyjson_mut_val *val) noexcept;
yyjson_mut_val *yyjson_mut_obj(yyjson_mut_doc *doc) noexcept;
bool yyjson_mut_obj_add(yyjson_mut_val *obj, yyjson_mut_val *key, yyjson_mut_val *val) noexcept;
bool yyjson_mut_obj_add_val(yyjson_mut_doc *doc, yyjson_mut_val *obj, const char *key, yyjson_mut_val *val) noexcept;
}
