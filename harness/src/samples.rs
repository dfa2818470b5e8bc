//! Fixed encodings, parts of which the checks replace by arbitrary bytes.
#![allow(dead_code)]

pub const NESTED: &[u8] = &[0x1c, 0x15, 0x02, 0x12, 0x00, 0x1c, 0x15, 0x80, 0x01, 0x00, 0x19, 0x2c, 0x15, 0x05, 0x11, 0x00, 0x15, 0x06, 0x00, 0x1c, 0x00, 0x11, 0x00];
pub const LISTS: &[u8] = &[0x19, 0x25, 0x02, 0x80, 0x03, 0x19, 0x28, 0x01, 0x61, 0x02, 0xc3, 0xa4, 0x19, 0x31, 1, 2, 0, 0x19, 0x17, 1, 2, 3, 4, 5, 6, 7, 8,
    0x09, 0x28, 0x16, 0x04, 0x19, 0x18, 0x02, 0xff, 0x00, 0x00];
pub const WRAPS: &[u8] = &[0x11, 0x12, 0x11, 0x12, 0x15, 0x08, 0x18, 0x01, 0x62, 0xec, 0x15, 0x02, 0x00, 0x1c, 0x15, 0x02, 0x12, 0x00, 0x1c, 0x15, 0x04, 0x00, 0x00];
// unknown fields of every kind around the known ones
pub const UNKNOWN: &[u8] = &[0x15, 0x02, 0x2b, 0x01, 0x38, 0x07, 0x01, 0x63, 0x1c, 0x19, 0x29, 0x13, 0x01, 0x13, 0x02, 0x00, 0x1a, 0x1b, 0x01, 0x56, 0x80, 0x01, 0x03, 0x17, 1, 2, 3, 4, 5, 6, 7, 8, 0x00];
pub const MIXED: &[u8] = &[0x15, 0x02, 0x15, 0x05, 0x1c, 0x58, 0x01, 0x61, 0x00, 0x29, 0x25, 0x01, 0x03, 0x19, 0x2c, 0x05, 0x07, 0x02, 0x00, 0x25, 0x80, 0x02, 0x00, 0x00];

/// a small file's metadata: two schema elements, a row group of one column, statistics
pub const META: &[u8] = &[
    0x15, 0x02, 0x19, 0x2c, 0x48, 0x01, 0x72, 0x15, 0x02, 0x00, // root
    0x15, 0x02, 0x25, 0x02, 0x18, 0x01, 0x61, 0x25, 0x0a, 0x15, 0x02, 0x15, 0x0e, 0x2c, 0x5c, 0x15, 0x02, 0x15, 0x0e, 0x00, 0x00, 0x00, // leaf
    0x16, 0x06, 0x19, 0x1c, 0x19, 0x1c, 0x26, 0x08, // rows, row group, column
    0x1c, 0x15, 0x02, 0x19, 0x25, 0x00, 0x06, 0x25, 0x04, 0x16, 0x06, 0x16, 0x10, 0x16, 0x10, 0x26, 0x08, // column metadata
    0x3c, 0x36, 0x00, 0x28, 0x01, 0x62, 0x18, 0x01, 0x61, 0x11, 0x00, 0x00, // statistics
    0x16, 0x60, 0x15, 0x10, 0x16, 0x70, 0x15, 0x10, 0x00, 0x16, 0x20, 0x16, 0x06, 0x00, // indexes, end of row group
    0x19, 0x1c, 0x18, 0x01, 0x6b, 0x18, 0x01, 0x76, 0x00, 0x18, 0x02, 0x68, 0x69, 0x19, 0x1c, 0x1c, 0x00, 0x00, 0x00,
];
pub const PAGE: &[u8] = &[0x15, 0x00, 0x15, 0x20, 0x15, 0x18, 0x15, 0x9c, 0x01, 0x1c, 0x15, 0x06, 0x15, 0x00, 0x15, 0x06, 0x15, 0x06, 0x1c, 0x36, 0x02, 0x00, 0x00, 0x00];
pub const INDEX: &[u8] = &[0x19, 0x22, 0x01, 0x02, 0x19, 0x28, 0x01, 0x61, 0x00, 0x19, 0x28, 0x01, 0x62, 0x00, 0x15, 0x02, 0x19, 0x26, 0x00, 0x02, 0x00];
