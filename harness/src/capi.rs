//! Declarations of the exported C functions (see /repo/include/libopenraw).
#![allow(dead_code)]
use libc::{c_char, c_int, c_void, size_t};

pub type P = *mut c_void;

extern "C" {
    pub fn or_debug_set_level(lvl: c_int);
    pub fn or_get_extract_thumbnail(f: *const c_char, size: u32, thumb: *mut P) -> c_int;
    pub fn or_get_extract_rawdata(f: *const c_char, options: u32, raw: *mut P) -> c_int;
    pub fn or_get_file_extensions() -> *const *const c_char;
    pub fn or_get_mime_types() -> *const *const c_char;
    pub fn or_get_type_for_mime_type(m: *const c_char) -> u32;

    pub fn or_rawfile_new(f: *const c_char, t: c_int) -> P;
    pub fn or_rawfile_new_from_memory(b: *const u8, len: u32, t: c_int) -> P;
    pub fn or_rawfile_release(f: P) -> c_int;
    pub fn or_rawfile_get_type(f: P) -> u32;
    pub fn or_rawfile_get_typeid(f: P) -> u32;
    pub fn or_rawfile_get_vendorid(f: P) -> u32;
    pub fn or_rawfile_get_thumbnail_sizes(f: P, size: *mut size_t) -> *const u32;
    pub fn or_rawfile_get_thumbnail(f: P, size: u32, err: *mut c_int) -> P;
    pub fn or_rawfile_get_rawdata(f: P, options: u32, err: *mut c_int) -> P;
    pub fn or_rawfile_get_rendered_image(f: P, options: u32, err: *mut c_int) -> P;
    pub fn or_rawfile_get_orientation(f: P) -> i32;
    pub fn or_rawfile_get_colourmatrix1(f: P, m: *mut f64, size: *mut u32) -> c_int;
    pub fn or_rawfile_get_colourmatrix2(f: P, m: *mut f64, size: *mut u32) -> c_int;
    pub fn or_rawfile_get_calibration_illuminant1(f: P) -> u32;
    pub fn or_rawfile_get_calibration_illuminant2(f: P) -> u32;
    pub fn or_rawfile_get_colour_matrix_origin(f: P) -> c_int;
    pub fn or_rawfile_get_metavalue(f: P, key: *const c_char) -> P;
    pub fn or_rawfile_get_ifd(f: P, ifd: c_int) -> P;
    pub fn or_rawfile_get_metadata_iterator(f: P) -> P;

    pub fn or_thumbnail_new() -> P;
    pub fn or_thumbnail_release(t: P) -> c_int;
    pub fn or_thumbnail_format(t: P) -> c_int;
    pub fn or_thumbnail_data(t: P) -> *const u8;
    pub fn or_thumbnail_data_size(t: P) -> size_t;
    pub fn or_thumbnail_dimensions(t: P, x: *mut u32, y: *mut u32);

    pub fn or_rawdata_new() -> P;
    pub fn or_rawdata_release(r: P) -> c_int;
    pub fn or_rawdata_format(r: P) -> c_int;
    pub fn or_rawdata_data(r: P) -> *const c_void;
    pub fn or_rawdata_data_size(r: P) -> size_t;
    pub fn or_rawdata_dimensions(r: P, x: *mut u32, y: *mut u32);
    pub fn or_rawdata_get_active_area(
        r: P,
        x: *mut u32,
        y: *mut u32,
        w: *mut u32,
        h: *mut u32,
    ) -> c_int;
    pub fn or_rawdata_get_user_crop(
        r: P,
        x: *mut u32,
        y: *mut u32,
        w: *mut u32,
        h: *mut u32,
    ) -> c_int;
    pub fn or_rawdata_get_user_aspect_ratio(r: P, w: *mut u32, h: *mut u32) -> c_int;
    pub fn or_rawdata_bpc(r: P) -> u32;
    pub fn or_rawdata_get_cfa_pattern_type(r: P) -> c_int;
    pub fn or_rawdata_get_mosaicinfo(r: P) -> P;
    pub fn or_rawdata_get_compression(r: P) -> u32;
    pub fn or_rawdata_levels(r: P, black: *mut u16, white: *mut u16) -> c_int;
    pub fn or_rawdata_as_shot_neutral(r: P, wb: *mut f64) -> c_int;
    pub fn or_rawdata_as_shot_white_xy(r: P, x: *mut f64, y: *mut f64) -> c_int;
    pub fn or_rawdata_get_colour_matrix(r: P, index: u32, size: *mut u32) -> *const f64;

    pub fn or_mosaicinfo_get_type(m: P) -> c_int;
    pub fn or_mosaicinfo_get_pattern(m: P, count: *mut u16) -> *const u8;

    pub fn or_bitmapdata_release(b: P) -> c_int;
    pub fn or_bitmapdata_format(b: P) -> c_int;
    pub fn or_bitmapdata_data(b: P) -> *const c_void;
    pub fn or_bitmapdata_data_size(b: P) -> size_t;
    pub fn or_bitmapdata_dimensions(b: P, x: *mut u32, y: *mut u32);

    pub fn or_ifd_get_type(d: P) -> c_int;
    pub fn or_ifd_count_tags(d: P) -> i32;
    pub fn or_ifd_get_makernote_id(d: P) -> *const c_char;
    pub fn or_ifd_get_tag_name(d: P, tag: u32) -> *const c_char;

    pub fn or_metadata_iterator_free(i: P);
    pub fn or_metadata_iterator_next(i: P) -> c_int;
    pub fn or_metadata_iterator_get_entry(i: P) -> P;
    pub fn or_metadata_iterator_get_dir(i: P) -> P;
    pub fn or_metadata_get_key(m: P) -> *const c_char;
    pub fn or_metadata_get_value(m: P) -> P;
    pub fn or_metadata_get_type(m: P) -> i16;

    pub fn or_metavalue_release(v: P);
    pub fn or_metavalue_get_string(v: P) -> *const c_char;
    pub fn or_metavalue_get_as_string(v: P, full: bool) -> *const c_char;
    pub fn or_metavalue_get_count(v: P) -> u32;
}
