// Calls the library through its published header, the way C programs do. Compiled by build.rs with
// the header from the working tree under test; the Rust side only knows these wrappers.
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include "libimagequant.h"

#define S(x) (int64_t)(x)
// layout as the header declares it
void v_layout(int64_t *o) {
    int i = 0;
    o[i++] = S(sizeof(liq_color)); o[i++] = S(offsetof(liq_color, r)); o[i++] = S(offsetof(liq_color, g)); o[i++] = S(offsetof(liq_color, b)); o[i++] = S(offsetof(liq_color, a));
    o[i++] = S(sizeof(liq_palette)); o[i++] = S(offsetof(liq_palette, count)); o[i++] = S(offsetof(liq_palette, entries)); o[i++] = S(sizeof(((liq_palette *)0)->count));
    o[i++] = S(sizeof(liq_histogram_entry)); o[i++] = S(offsetof(liq_histogram_entry, color)); o[i++] = S(offsetof(liq_histogram_entry, count));
    o[i++] = LIQ_OK; o[i++] = LIQ_QUALITY_TOO_LOW; o[i++] = LIQ_VALUE_OUT_OF_RANGE; o[i++] = LIQ_OUT_OF_MEMORY; o[i++] = LIQ_ABORTED; o[i++] = LIQ_BITMAP_NOT_AVAILABLE;
    o[i++] = LIQ_BUFFER_TOO_SMALL; o[i++] = LIQ_INVALID_POINTER; o[i++] = LIQ_UNSUPPORTED;
    o[i++] = LIQ_OWN_ROWS; o[i++] = LIQ_OWN_PIXELS; o[i++] = LIQ_COPY_PIXELS;
    o[i++] = LIQ_VERSION;
}
int v_version(void) { return liq_version(); }
// the palette as C code reads it
int v_read_palette(const liq_palette *p, liq_color *out) {
    for (unsigned i = 0; i < p->count; i++) out[i] = p->entries[i];
    return (int)p->count;
}
int v_add_colors_i(liq_histogram *h, const liq_attr *a, const liq_color *c, const unsigned *n, int k, double gamma) {
    liq_histogram_entry *e = malloc(sizeof(*e) * (size_t)(k > 0 ? k : 1));
    for (int i = 0; i < k; i++) { e[i].color = c[i]; e[i].count = n[i]; }
    int r = liq_histogram_add_colors(h, a, e, k, gamma);
    memset(e, 0x5a, sizeof(*e) * (size_t)(k > 0 ? k : 1));
    free(e);
    return r;
}
liq_attr *v_attr_create(void) { return liq_attr_create(); }
liq_attr *v_attr_create_with_allocator(void *m, void *f) { return liq_attr_create_with_allocator(m, f); }
liq_attr *v_attr_copy(const liq_attr *a) { return liq_attr_copy(a); }
void v_attr_destroy(liq_attr *a) { liq_attr_destroy(a); }
liq_histogram *v_histogram_create(const liq_attr *a) { return liq_histogram_create(a); }
int v_histogram_add_image(liq_histogram *h, const liq_attr *a, liq_image *i) { return liq_histogram_add_image(h, a, i); }
int v_histogram_add_colors(liq_histogram *h, const liq_attr *a, const liq_histogram_entry *e, int n, double g) { return liq_histogram_add_colors(h, a, e, n, g); }
int v_histogram_add_fixed_color(liq_histogram *h, const liq_color *c, double g) { return liq_histogram_add_fixed_color(h, *c, g); }
void v_histogram_destroy(liq_histogram *h) { liq_histogram_destroy(h); }
int v_set_max_colors(liq_attr *a, int n) { return liq_set_max_colors(a, n); }
int v_get_max_colors(const liq_attr *a) { return liq_get_max_colors(a); }
int v_set_speed(liq_attr *a, int n) { return liq_set_speed(a, n); }
int v_get_speed(const liq_attr *a) { return liq_get_speed(a); }
int v_set_min_opacity(liq_attr *a, int n) { return liq_set_min_opacity(a, n); }
int v_get_min_opacity(const liq_attr *a) { return liq_get_min_opacity(a); }
int v_set_min_posterization(liq_attr *a, int n) { return liq_set_min_posterization(a, n); }
int v_get_min_posterization(const liq_attr *a) { return liq_get_min_posterization(a); }
int v_set_quality(liq_attr *a, int m, int n) { return liq_set_quality(a, m, n); }
int v_get_min_quality(const liq_attr *a) { return liq_get_min_quality(a); }
int v_get_max_quality(const liq_attr *a) { return liq_get_max_quality(a); }
void v_set_last_index_transparent(liq_attr *a, int n) { liq_set_last_index_transparent(a, n); }
void v_set_log_callback(liq_attr *a, liq_log_callback_function *f, void *u) { liq_set_log_callback(a, f, u); }
void v_set_log_flush_callback(liq_attr *a, liq_log_flush_callback_function *f, void *u) { liq_set_log_flush_callback(a, f, u); }
void v_attr_set_progress_callback(liq_attr *a, liq_progress_callback_function *f, void *u) { liq_attr_set_progress_callback(a, f, u); }
void v_result_set_progress_callback(liq_result *a, liq_progress_callback_function *f, void *u) { liq_result_set_progress_callback(a, f, u); }
liq_image *v_image_create_rgba_rows(const liq_attr *a, void *const *rows, int w, int h, double g) { return liq_image_create_rgba_rows(a, rows, w, h, g); }
liq_image *v_image_create_rgba(const liq_attr *a, const void *px, int w, int h, double g) { return liq_image_create_rgba(a, px, w, h, g); }
liq_image *v_image_create_custom(const liq_attr *a, liq_image_get_rgba_row_callback *f, void *u, int w, int h, double g) { return liq_image_create_custom(a, f, u, w, h, g); }
int v_image_set_memory_ownership(liq_image *i, int f) { return liq_image_set_memory_ownership(i, f); }
int v_image_set_background(liq_image *i, liq_image *b) { return liq_image_set_background(i, b); }
int v_image_set_importance_map(liq_image *i, unsigned char *m, size_t n, int own) { return liq_image_set_importance_map(i, m, n, (enum liq_ownership)own); }
int v_image_add_fixed_color(liq_image *i, const liq_color *c) { return liq_image_add_fixed_color(i, *c); }
int v_image_get_width(const liq_image *i) { return liq_image_get_width(i); }
int v_image_get_height(const liq_image *i) { return liq_image_get_height(i); }
void v_image_destroy(liq_image *i) { liq_image_destroy(i); }
int v_histogram_quantize(liq_histogram *h, liq_attr *a, liq_result **o) { return liq_histogram_quantize(h, a, o); }
int v_image_quantize(liq_image *i, liq_attr *a, liq_result **o) { return liq_image_quantize(i, a, o); }
liq_result *v_quantize_image(liq_attr *a, liq_image *i) { return liq_quantize_image(a, i); }
int v_set_dithering_level(liq_result *r, float f) { return liq_set_dithering_level(r, f); }
int v_set_output_gamma(liq_result *r, double g) { return liq_set_output_gamma(r, g); }
double v_get_output_gamma(const liq_result *r) { return liq_get_output_gamma(r); }
const liq_palette *v_get_palette(liq_result *r) { return liq_get_palette(r); }
int v_write_remapped_image(liq_result *r, liq_image *i, void *b, size_t n) { return liq_write_remapped_image(r, i, b, n); }
int v_write_remapped_image_rows(liq_result *r, liq_image *i, unsigned char **rows) { return liq_write_remapped_image_rows(r, i, rows); }
double v_get_quantization_error(const liq_result *r) { return liq_get_quantization_error(r); }
int v_get_quantization_quality(const liq_result *r) { return liq_get_quantization_quality(r); }
double v_get_remapping_error(const liq_result *r) { return liq_get_remapping_error(r); }
int v_get_remapping_quality(const liq_result *r) { return liq_get_remapping_quality(r); }
void v_result_destroy(liq_result *r) { liq_result_destroy(r); }
