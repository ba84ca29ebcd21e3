// Declarations of libpng 1.6, written for this framework: the library itself is
// installed here (libpng16.so.16), its header is not.
#ifndef PNG_H
#define PNG_H
#include <setjmp.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define PNG_LIBPNG_VER_STRING "1.6.43"
#define PNG_LIBPNG_VER 10643
#define PNG_COLOR_MASK_PALETTE 1
#define PNG_COLOR_MASK_COLOR 2
#define PNG_COLOR_MASK_ALPHA 4
#define PNG_COLOR_TYPE_GRAY 0
#define PNG_COLOR_TYPE_PALETTE 3
#define PNG_COLOR_TYPE_RGB 2
#define PNG_COLOR_TYPE_RGB_ALPHA 6
#define PNG_COLOR_TYPE_GRAY_ALPHA 4
#define PNG_COLOR_TYPE_RGBA PNG_COLOR_TYPE_RGB_ALPHA
#define PNG_COLOR_TYPE_GA PNG_COLOR_TYPE_GRAY_ALPHA
#define PNG_COMPRESSION_TYPE_BASE 0
#define PNG_COMPRESSION_TYPE_DEFAULT 0
#define PNG_FILTER_TYPE_BASE 0
#define PNG_FILTER_TYPE_DEFAULT 0
#define PNG_INTERLACE_NONE 0
#define PNG_INTERLACE_ADAM7 1
#define PNG_INFO_tRNS 0x0010U
#define PNG_INFO_PLTE 0x0008U
#define PNG_FILLER_BEFORE 0
#define PNG_FILLER_AFTER 1
#define PNG_TRANSFORM_IDENTITY 0x0000
#define PNG_TRANSFORM_STRIP_16 0x0001
#define PNG_TRANSFORM_STRIP_ALPHA 0x0002
#define PNG_TRANSFORM_PACKING 0x0004
#define PNG_TRANSFORM_EXPAND 0x0010
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned char png_byte;
typedef short png_int_16;
typedef unsigned short png_uint_16;
typedef int png_int_32;
typedef unsigned int png_uint_32;
typedef png_int_32 png_fixed_point;
typedef size_t png_size_t;
typedef png_byte* png_bytep;
typedef const png_byte* png_const_bytep;
typedef png_byte** png_bytepp;
typedef void* png_voidp;
typedef const char* png_const_charp;
typedef char* png_charp;
typedef FILE* png_FILE_p;
typedef struct png_struct_def png_struct;
typedef png_struct* png_structp;
typedef const png_struct* png_const_structp;
typedef png_struct** png_structpp;
typedef png_struct* png_structrp;
typedef const png_struct* png_const_structrp;
typedef struct png_info_def png_info;
typedef png_info* png_infop;
typedef const png_info* png_const_infop;
typedef png_info** png_infopp;
typedef png_info* png_inforp;
typedef const png_info* png_const_inforp;
typedef struct png_color_struct { png_byte red, green, blue; } png_color;
typedef png_color* png_colorp;
typedef const png_color* png_const_colorp;
typedef struct png_color_16_struct { png_byte index; png_uint_16 red, green, blue, gray; } png_color_16;
typedef png_color_16* png_color_16p;
typedef void (*png_error_ptr)(png_structp, png_const_charp);
typedef void (*png_rw_ptr)(png_structp, png_bytep, size_t);
typedef void (*png_flush_ptr)(png_structp);
typedef void (*png_longjmp_ptr)(jmp_buf, int);
#define png_jmpbuf(png_ptr) (*png_set_longjmp_fn((png_ptr), longjmp, (sizeof(jmp_buf))))
jmp_buf* png_set_longjmp_fn(png_structrp, png_longjmp_ptr, size_t);
int png_sig_cmp(png_const_bytep, size_t, size_t);
#define png_check_sig(sig, n) (png_sig_cmp((sig), 0, (n)) == 0)
png_structp png_create_read_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr);
png_structp png_create_write_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr);
png_infop png_create_info_struct(png_const_structrp);
void png_destroy_info_struct(png_const_structrp, png_infopp);
void png_destroy_read_struct(png_structpp, png_infopp, png_infopp);
void png_destroy_write_struct(png_structpp, png_infopp);
void png_init_io(png_structrp, png_FILE_p);
void png_set_read_fn(png_structrp, png_voidp, png_rw_ptr);
void png_set_write_fn(png_structrp, png_voidp, png_rw_ptr, png_flush_ptr);
png_voidp png_get_io_ptr(png_const_structrp);
void png_set_error_fn(png_structrp, png_voidp, png_error_ptr, png_error_ptr);
png_voidp png_get_error_ptr(png_const_structrp);
void png_error(png_const_structrp, png_const_charp) __attribute__((noreturn));
void png_longjmp(png_const_structrp, int) __attribute__((noreturn));
void png_set_sig_bytes(png_structrp, int);
void png_read_info(png_structrp, png_inforp);
void png_read_update_info(png_structrp, png_inforp);
void png_start_read_image(png_structrp);
void png_read_row(png_structrp, png_bytep, png_bytep);
void png_read_rows(png_structrp, png_bytepp, png_bytepp, png_uint_32);
void png_read_image(png_structrp, png_bytepp);
void png_read_end(png_structrp, png_inforp);
void png_read_png(png_structrp, png_inforp, int, png_voidp);
void png_write_info(png_structrp, png_const_inforp);
void png_write_row(png_structrp, png_const_bytep);
void png_write_rows(png_structrp, png_bytepp, png_uint_32);
void png_write_image(png_structrp, png_bytepp);
void png_write_end(png_structrp, png_inforp);
void png_write_png(png_structrp, png_inforp, int, png_voidp);
void png_write_flush(png_structrp);
void png_set_IHDR(png_const_structrp, png_inforp, png_uint_32, png_uint_32, int, int, int, int, int);
png_uint_32 png_get_IHDR(png_const_structrp, png_const_inforp, png_uint_32*, png_uint_32*, int*, int*, int*, int*, int*);
png_uint_32 png_get_valid(png_const_structrp, png_const_inforp, png_uint_32);
size_t png_get_rowbytes(png_const_structrp, png_const_inforp);
png_bytepp png_get_rows(png_const_structrp, png_const_inforp);
void png_set_rows(png_const_structrp, png_inforp, png_bytepp);
png_byte png_get_channels(png_const_structrp, png_const_inforp);
png_uint_32 png_get_image_width(png_const_structrp, png_const_inforp);
png_uint_32 png_get_image_height(png_const_structrp, png_const_inforp);
png_byte png_get_bit_depth(png_const_structrp, png_const_inforp);
png_byte png_get_color_type(png_const_structrp, png_const_inforp);
png_byte png_get_interlace_type(png_const_structrp, png_const_inforp);
int png_set_interlace_handling(png_structrp);
void png_set_expand(png_structrp);
void png_set_expand_gray_1_2_4_to_8(png_structrp);
void png_set_palette_to_rgb(png_structrp);
void png_set_tRNS_to_alpha(png_structrp);
void png_set_gray_to_rgb(png_structrp);
void png_set_strip_16(png_structrp);
void png_set_scale_16(png_structrp);
void png_set_strip_alpha(png_structrp);
void png_set_swap(png_structrp);
void png_set_packing(png_structrp);
void png_set_filler(png_structrp, png_uint_32, int);
void png_set_filter(png_structrp, int, int);
void png_set_compression_level(png_structrp, int);
void png_set_crc_action(png_structrp, int, int);
void png_set_user_limits(png_structrp, png_uint_32, png_uint_32);
void png_set_PLTE(png_structrp, png_inforp, png_const_colorp, int);
void png_set_tRNS(png_structrp, png_inforp, png_const_bytep, int, png_color_16p);
png_voidp png_malloc(png_const_structrp, size_t);
void png_free(png_const_structrp, png_voidp);
#ifdef __cplusplus
}
#endif
#endif
