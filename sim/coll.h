/* pairs of control words that common 32-bit hashes of eight bytes cannot tell apart */
static const uint8_t cw_twins[][2][8] = {
  { { 0xc7, 0x25, 0xdb, 0x7d, 0x28, 0x5c, 0x2a, 0x9e }, { 0x47, 0xe5, 0x73, 0x02, 0x9d, 0x19, 0x6e, 0xdb } },   /* fnv1a */
  { { 0x08, 0xe8, 0x0f, 0x43, 0x9c, 0x6c, 0x22, 0xfb }, { 0xe2, 0xd1, 0x96, 0xc3, 0x5c, 0x9f, 0xc3, 0xf7 } },   /* fnv1a */
  { { 0x63, 0x2f, 0xbe, 0x50, 0xf9, 0xd8, 0x1d, 0xee }, { 0x16, 0xdd, 0x98, 0x8b, 0xa5, 0x1d, 0x47, 0x09 } },   /* fnv1a */
  { { 0xb3, 0xe1, 0xf5, 0x89, 0x31, 0x99, 0x91, 0x5b }, { 0x34, 0x91, 0x67, 0x2c, 0x2a, 0x59, 0xcd, 0x50 } },   /* fnv1a */
  { { 0x3f, 0x45, 0x0d, 0x98, 0x1f, 0x8a, 0x8a, 0x27 }, { 0x27, 0x9c, 0x4b, 0x32, 0x36, 0xd5, 0x4d, 0xd3 } },   /* fnv1 */
  { { 0x47, 0x94, 0xd7, 0xed, 0x47, 0xa3, 0xac, 0x81 }, { 0x4d, 0x13, 0x71, 0xfb, 0x80, 0x77, 0xc2, 0x27 } },   /* fnv1 */
  { { 0x72, 0x51, 0x54, 0x17, 0x32, 0x8f, 0xd0, 0x91 }, { 0x3b, 0x80, 0xd6, 0x91, 0x3f, 0xe0, 0xeb, 0x0a } },   /* fnv1 */
  { { 0xa8, 0x5c, 0x24, 0x28, 0x87, 0xe1, 0xa0, 0x08 }, { 0x9d, 0x6b, 0xe1, 0xe9, 0xcd, 0xba, 0xd6, 0x5d } },   /* fnv1 */
  { { 0x1a, 0xe8, 0xee, 0x68, 0x4b, 0x24, 0x22, 0x3a }, { 0x44, 0xe6, 0xee, 0xfe, 0xcb, 0x44, 0xf0, 0x4e } },   /* fnv1a64lo */
  { { 0xa3, 0x45, 0xc5, 0x08, 0x7b, 0xf7, 0x14, 0x65 }, { 0x66, 0x20, 0x57, 0x45, 0xdc, 0x5d, 0x74, 0xf3 } },   /* fnv1a64lo */
  { { 0x5b, 0x33, 0x9e, 0x2c, 0xb2, 0x28, 0x2d, 0x07 }, { 0x62, 0x89, 0xe5, 0xd0, 0xa1, 0xa3, 0x69, 0xad } },   /* fnv1a64lo */
  { { 0x40, 0x50, 0x9f, 0x2f, 0xc1, 0xe4, 0xf6, 0x9b }, { 0x01, 0x3b, 0x7b, 0xb7, 0x0d, 0xd5, 0x63, 0x45 } },   /* fnv1a64lo */
  { { 0xa1, 0xf2, 0x81, 0xbb, 0x1e, 0xc5, 0x76, 0xee }, { 0x88, 0xa9, 0x8f, 0xda, 0xa0, 0xda, 0xac, 0x78 } },   /* fnv1a64hi */
  { { 0xfd, 0x78, 0x34, 0xc7, 0x37, 0xe3, 0x25, 0x9f }, { 0x29, 0x13, 0xaa, 0x8f, 0xcd, 0x4e, 0xe2, 0x54 } },   /* fnv1a64hi */
  { { 0x2f, 0xc2, 0x21, 0x12, 0x8c, 0xe2, 0x5a, 0xc8 }, { 0x6c, 0x74, 0x97, 0x77, 0xb5, 0x4f, 0x18, 0x1c } },   /* fnv1a64hi */
  { { 0x63, 0xaa, 0x6f, 0x7c, 0x47, 0xb3, 0xe5, 0xdf }, { 0xfe, 0x87, 0x8a, 0x0f, 0x31, 0x8b, 0xca, 0x86 } },   /* fnv1a64hi */
  { { 0x2e, 0xee, 0x58, 0x32, 0xc2, 0x05, 0xb0, 0xbe }, { 0xdf, 0x30, 0xd0, 0x9a, 0x8a, 0xdd, 0x22, 0x1f } },   /* fnv1a64fold */
  { { 0x2d, 0xea, 0xd5, 0xd6, 0xaa, 0xc7, 0xc4, 0x87 }, { 0x2f, 0x6e, 0x98, 0xa7, 0x5f, 0x52, 0x48, 0x84 } },   /* fnv1a64fold */
  { { 0xd8, 0x13, 0x60, 0x4b, 0x65, 0x16, 0xaa, 0x25 }, { 0x50, 0x9f, 0x23, 0x12, 0x51, 0xa3, 0x43, 0x37 } },   /* fnv1a64fold */
  { { 0x73, 0xaa, 0x39, 0x56, 0x67, 0x04, 0xde, 0x49 }, { 0x81, 0xd5, 0x26, 0x7c, 0x3b, 0x72, 0x76, 0x23 } },   /* fnv1a64fold */
  { { 0x12, 0xc4, 0x6e, 0x04, 0x20, 0x8b, 0x17, 0xca }, { 0x55, 0xf6, 0x0c, 0x5f, 0x3d, 0xa1, 0x0d, 0xb3 } },   /* djb2 */
  { { 0x95, 0xfc, 0x19, 0xea, 0x73, 0xcc, 0x6a, 0xd0 }, { 0xc0, 0x3c, 0x1f, 0xd8, 0x48, 0x23, 0x2c, 0x43 } },   /* djb2 */
  { { 0x61, 0x9c, 0x0d, 0x0a, 0x80, 0xec, 0x5f, 0xcb }, { 0xb8, 0x2b, 0x57, 0x3a, 0xa3, 0xe5, 0xd3, 0x5b } },   /* djb2 */
  { { 0x89, 0x88, 0xf4, 0x05, 0xa7, 0x57, 0x0f, 0x0d }, { 0x79, 0x04, 0xb7, 0x34, 0xd9, 0xaa, 0x2b, 0xae } },   /* djb2 */
  { { 0xb7, 0xd8, 0xdb, 0x97, 0xf9, 0x42, 0x9e, 0xe3 }, { 0xfc, 0x94, 0x8f, 0xac, 0x18, 0xd1, 0x4c, 0x6b } },   /* djb2a */
  { { 0x55, 0x7c, 0xaf, 0x73, 0x7a, 0x45, 0xa1, 0xf0 }, { 0x88, 0x56, 0x56, 0xa5, 0x33, 0x74, 0x5d, 0x4c } },   /* djb2a */
  { { 0x04, 0xa3, 0xbc, 0x63, 0x58, 0x11, 0xda, 0x43 }, { 0x21, 0xe7, 0xe7, 0xef, 0x4f, 0x8e, 0x65, 0x42 } },   /* djb2a */
  { { 0xa4, 0x53, 0xcf, 0xc6, 0x16, 0x77, 0x28, 0xb5 }, { 0xc8, 0x26, 0x2f, 0x1d, 0x37, 0x61, 0x7c, 0x14 } },   /* djb2a */
  { { 0x05, 0x6d, 0xef, 0x11, 0x23, 0xd1, 0x04, 0x23 }, { 0xbc, 0x2a, 0x16, 0xa7, 0xe1, 0x3f, 0x70, 0x6a } },   /* x31 */
  { { 0x06, 0x45, 0x4b, 0x1f, 0x59, 0xe7, 0x05, 0x31 }, { 0xfd, 0x7d, 0xfc, 0x7e, 0x9a, 0x8b, 0x72, 0x0c } },   /* x31 */
  { { 0x40, 0x70, 0x8e, 0x3e, 0x9a, 0xdc, 0x28, 0x9e }, { 0xe6, 0x28, 0x45, 0x53, 0xf2, 0xb4, 0x1e, 0xc4 } },   /* x31 */
  { { 0x61, 0x1f, 0x2c, 0xac, 0x3b, 0x57, 0x00, 0x92 }, { 0x4e, 0xed, 0xdc, 0x17, 0xf0, 0x19, 0x49, 0x52 } },   /* x31 */
  { { 0x14, 0xaa, 0x8a, 0x79, 0x70, 0x0d, 0x6d, 0x95 }, { 0xa4, 0x4d, 0x66, 0xed, 0x7a, 0x77, 0x6b, 0x48 } },   /* x31_17 */
  { { 0x1b, 0xed, 0x27, 0xa6, 0x94, 0x20, 0x5c, 0x0c }, { 0x13, 0x75, 0x2c, 0xd5, 0x37, 0x59, 0xef, 0x6f } },   /* x31_17 */
  { { 0x98, 0x75, 0x2e, 0x3b, 0x49, 0x52, 0x8e, 0x29 }, { 0x36, 0x6f, 0x2a, 0xcf, 0xe4, 0x48, 0xf8, 0x24 } },   /* x31_17 */
  { { 0x5c, 0xef, 0x43, 0x8e, 0x22, 0xc8, 0x29, 0x13 }, { 0xe8, 0xcd, 0x67, 0x1c, 0xc5, 0x0a, 0x5e, 0x2d } },   /* x31_17 */
  { { 0x47, 0xb8, 0x29, 0xb9, 0x9d, 0xc7, 0x54, 0xdb }, { 0x28, 0xe4, 0xe6, 0x6d, 0x09, 0x39, 0x36, 0xfd } },   /* x131 */
  { { 0x0c, 0x63, 0x15, 0x64, 0x93, 0x59, 0x8f, 0xe7 }, { 0x80, 0xba, 0x8b, 0x98, 0x80, 0x43, 0x07, 0x95 } },   /* x131 */
  { { 0x89, 0x57, 0x1b, 0xfb, 0x33, 0x81, 0x25, 0xd9 }, { 0x9b, 0xb9, 0x1c, 0x70, 0x0d, 0x79, 0x6f, 0xf5 } },   /* x131 */
  { { 0xdd, 0x2d, 0x45, 0x4f, 0xca, 0x94, 0x86, 0xe4 }, { 0x2c, 0xdd, 0x3b, 0x44, 0x0f, 0x16, 0xb7, 0xdc } },   /* x131 */
  { { 0xb1, 0x99, 0xe2, 0x1d, 0xf7, 0x5a, 0x0c, 0xde }, { 0x6b, 0xcc, 0x51, 0x62, 0x8e, 0xdf, 0x90, 0xa5 } },   /* sdbm */
  { { 0x1d, 0xb6, 0x3d, 0x09, 0x44, 0xc8, 0xb8, 0x0e }, { 0x46, 0xc3, 0x86, 0x79, 0x0e, 0x57, 0xb8, 0xbe } },   /* sdbm */
  { { 0xb5, 0x7f, 0xc1, 0xf5, 0x13, 0xa4, 0xb7, 0x6e }, { 0x4f, 0xd6, 0x65, 0x8a, 0xdc, 0xad, 0xa3, 0x2c } },   /* sdbm */
  { { 0x49, 0x56, 0xaf, 0x4e, 0x44, 0xce, 0x1f, 0x31 }, { 0x7f, 0x0f, 0xaa, 0x38, 0xfc, 0x75, 0x67, 0xd8 } },   /* sdbm */
  { { 0x13, 0xa9, 0x22, 0xe6, 0x7e, 0x62, 0xc8, 0x46 }, { 0xfd, 0xa8, 0x07, 0x40, 0xb9, 0x84, 0x32, 0x76 } },   /* rot5 */
  { { 0xc4, 0xd7, 0xe1, 0xc3, 0xdb, 0xfd, 0x52, 0x04 }, { 0xb6, 0x80, 0x84, 0x63, 0xde, 0x5c, 0x6b, 0xa1 } },   /* rot5 */
  { { 0x9b, 0xfc, 0x88, 0x1f, 0x86, 0x22, 0xc7, 0x6f }, { 0xc6, 0x89, 0x2b, 0x7a, 0x26, 0x25, 0x30, 0x7b } },   /* rot5 */
  { { 0xdb, 0x00, 0x88, 0x63, 0xe1, 0x79, 0x9e, 0xf8 }, { 0x04, 0x33, 0xea, 0x21, 0xa4, 0xdd, 0x2b, 0xac } },   /* rot5 */
  { { 0xce, 0x04, 0x46, 0x90, 0x43, 0xca, 0xeb, 0x07 }, { 0x9a, 0xa7, 0x06, 0xe0, 0x46, 0xe1, 0x77, 0x00 } },   /* rot7 */
  { { 0xc8, 0xba, 0xf0, 0x71, 0x29, 0xa1, 0xf5, 0xcb }, { 0x06, 0x3d, 0x6e, 0x90, 0xa4, 0x58, 0x44, 0xb5 } },   /* rot7 */
  { { 0xaa, 0x80, 0x07, 0x31, 0xec, 0x93, 0x41, 0xc0 }, { 0xdb, 0x76, 0x30, 0x81, 0xeb, 0x95, 0xf3, 0x73 } },   /* rot7 */
  { { 0xb6, 0x26, 0xa4, 0x80, 0xb3, 0xad, 0x97, 0xf7 }, { 0xc6, 0x7e, 0x9c, 0xe0, 0xb4, 0xa8, 0xd5, 0x31 } },   /* rot7 */
  { { 0x15, 0xbc, 0xb0, 0x95, 0x9f, 0x24, 0x5e, 0x9c }, { 0x02, 0x09, 0xd2, 0xd8, 0x7a, 0x59, 0xfc, 0xcc } },   /* rot3 */
  { { 0x09, 0x48, 0x43, 0x03, 0x6d, 0x1f, 0x04, 0x1c }, { 0x05, 0x27, 0x20, 0xd4, 0x0a, 0xe9, 0x6e, 0xcc } },   /* rot3 */
  { { 0x0a, 0x5c, 0x2d, 0x93, 0xa3, 0xc7, 0x30, 0x9a }, { 0x14, 0xa8, 0x06, 0xc2, 0xf6, 0x38, 0x8c, 0xba } },   /* rot3 */
  { { 0x04, 0x32, 0x2f, 0x65, 0x06, 0x0d, 0x61, 0x74 }, { 0x15, 0xbf, 0x16, 0xea, 0x24, 0xd9, 0x47, 0x44 } },   /* rot3 */
  { { 0x2c, 0xcd, 0x62, 0xa5, 0xf9, 0xbd, 0x32, 0xea }, { 0xc8, 0x94, 0x83, 0x87, 0xbc, 0x5c, 0x32, 0x18 } },   /* rot5a */
  { { 0xd7, 0x6e, 0x50, 0x05, 0xc1, 0x8b, 0x7c, 0x00 }, { 0xda, 0x18, 0x0c, 0x84, 0xe2, 0x6d, 0x38, 0x7e } },   /* rot5a */
  { { 0xec, 0x88, 0x02, 0x76, 0xe1, 0xa1, 0xd6, 0x58 }, { 0x2b, 0xed, 0x62, 0x7a, 0x62, 0x82, 0xe2, 0xc6 } },   /* rot5a */
  { { 0xfc, 0x25, 0x66, 0x87, 0xdf, 0xc4, 0x55, 0xf8 }, { 0x8e, 0xf1, 0xe7, 0x66, 0xff, 0xc6, 0x2f, 0xf4 } },   /* rot5a */
  { { 0x80, 0x98, 0x90, 0xfc, 0xe1, 0xa3, 0x34, 0xd8 }, { 0xbe, 0x4b, 0x11, 0xd9, 0x57, 0xda, 0x93, 0x2e } },   /* crc32 */
  { { 0xed, 0xde, 0x87, 0xbb, 0xf3, 0xa9, 0x5b, 0xc3 }, { 0x1a, 0x03, 0xf0, 0x73, 0x3d, 0x84, 0x7a, 0xa8 } },   /* crc32 */
  { { 0xf9, 0x3b, 0x59, 0x8d, 0xff, 0x5c, 0x46, 0xa1 }, { 0x25, 0x0f, 0x2e, 0x62, 0x4a, 0x07, 0x6d, 0xbe } },   /* crc32 */
  { { 0xf2, 0x31, 0xee, 0x11, 0x48, 0xf1, 0x15, 0x4e }, { 0x4b, 0x26, 0x2f, 0xa0, 0xb8, 0x20, 0x81, 0x59 } },   /* crc32 */
  { { 0x67, 0xfb, 0x74, 0x70, 0xf0, 0x3a, 0x07, 0xdb }, { 0xc7, 0xfe, 0x11, 0xbc, 0x99, 0xe4, 0x67, 0x36 } },   /* crc32c */
  { { 0x17, 0x05, 0xf8, 0x92, 0x37, 0x92, 0xba, 0x02 }, { 0x7f, 0x63, 0xfb, 0xb6, 0x3f, 0x86, 0x2d, 0xac } },   /* crc32c */
  { { 0xc9, 0xf7, 0x86, 0x46, 0x15, 0x15, 0x84, 0xae }, { 0x8b, 0x5c, 0xb1, 0x98, 0xd8, 0x9e, 0xd1, 0x47 } },   /* crc32c */
  { { 0x44, 0x63, 0x4f, 0xf6, 0x21, 0x07, 0x1f, 0x47 }, { 0xae, 0x37, 0xc3, 0xa8, 0x35, 0xa1, 0x06, 0xdc } },   /* crc32c */
  { { 0x82, 0x8d, 0x22, 0x57, 0x5e, 0xda, 0x3d, 0xd3 }, { 0xf8, 0xa7, 0x5e, 0x15, 0x62, 0x79, 0x33, 0x4a } },   /* crc32mpeg */
  { { 0x91, 0x01, 0xe3, 0x11, 0x6d, 0x0e, 0xe7, 0xae }, { 0x93, 0x24, 0xed, 0xc6, 0x8c, 0xf9, 0xa6, 0x14 } },   /* crc32mpeg */
  { { 0x83, 0xcd, 0x22, 0x72, 0x8f, 0xf6, 0xe8, 0x6d }, { 0xe1, 0x90, 0xb2, 0x23, 0x85, 0x43, 0x70, 0x38 } },   /* crc32mpeg */
  { { 0xf5, 0x29, 0x41, 0x5f, 0x39, 0x26, 0x5f, 0xbe }, { 0x96, 0x9a, 0x45, 0x75, 0x58, 0x86, 0x94, 0x72 } },   /* crc32mpeg */
  { { 0x7d, 0xc3, 0x2c, 0xc3, 0xd0, 0xf0, 0xd6, 0x44 }, { 0xe7, 0xd0, 0x0f, 0xd2, 0x39, 0x33, 0xe7, 0x87 } },   /* oat */
  { { 0x9e, 0xe0, 0x65, 0x34, 0x98, 0x99, 0x25, 0x7a }, { 0x3b, 0xb8, 0xfa, 0x26, 0xfd, 0x9c, 0x5c, 0x85 } },   /* oat */
  { { 0x51, 0xec, 0xdc, 0x19, 0xa8, 0xf9, 0x71, 0x12 }, { 0x5f, 0x7f, 0x1b, 0xf9, 0x4f, 0x36, 0x2d, 0xb2 } },   /* oat */
  { { 0xeb, 0x1e, 0x79, 0x82, 0x7f, 0x21, 0xdb, 0x7b }, { 0x95, 0x7d, 0x07, 0x19, 0x2c, 0x8a, 0x3a, 0xf0 } },   /* oat */
  { { 0x0a, 0xeb, 0x97, 0xf5, 0xc2, 0xbb, 0x18, 0x7a }, { 0x04, 0x49, 0xa2, 0x5a, 0x4d, 0x5c, 0xfe, 0xde } },   /* murmur3 */
  { { 0xd2, 0x8c, 0x14, 0x43, 0x3d, 0x56, 0xf0, 0x1a }, { 0x96, 0x00, 0x6a, 0x9e, 0x2d, 0x22, 0xe5, 0x9c } },   /* murmur3 */
  { { 0x7a, 0x9b, 0x09, 0x1e, 0x58, 0x13, 0x01, 0x6c }, { 0xae, 0x15, 0xba, 0x7d, 0xcd, 0x34, 0x91, 0x92 } },   /* murmur3 */
  { { 0x47, 0x4a, 0xad, 0x3e, 0xf3, 0x07, 0x9b, 0x95 }, { 0x04, 0x28, 0x37, 0x63, 0x0f, 0xd2, 0xb0, 0x91 } },   /* murmur3 */
  { { 0xae, 0x9e, 0x40, 0x8b, 0xea, 0x1c, 0x5b, 0x4b }, { 0x62, 0x87, 0x5b, 0x46, 0x42, 0x2b, 0x67, 0xf4 } },   /* xxh32 */
  { { 0xd3, 0x76, 0x26, 0x7a, 0x4e, 0xb3, 0xcd, 0x77 }, { 0x98, 0xe2, 0x88, 0x77, 0x75, 0x3b, 0x50, 0x00 } },   /* xxh32 */
  { { 0x20, 0x95, 0xbd, 0x72, 0xde, 0x17, 0x1c, 0x11 }, { 0xd8, 0x4f, 0x2a, 0x51, 0xcd, 0x0d, 0xc1, 0x9b } },   /* xxh32 */
  { { 0xf8, 0x5f, 0xb4, 0x0b, 0x2b, 0xa6, 0xa1, 0x72 }, { 0xe1, 0xa9, 0x29, 0xb3, 0x55, 0xc2, 0x75, 0x8c } },   /* xxh32 */
  { { 0xed, 0x88, 0xc3, 0x41, 0xee, 0x39, 0x5b, 0xd2 }, { 0xa2, 0x07, 0xa1, 0x52, 0x82, 0x26, 0x23, 0xfd } },   /* gold_le */
  { { 0x57, 0x71, 0x89, 0xaa, 0x61, 0x77, 0x48, 0xfd }, { 0x46, 0x42, 0xe8, 0x98, 0x8f, 0xef, 0xbd, 0x0a } },   /* gold_le */
  { { 0x96, 0x68, 0xa6, 0xa4, 0xb9, 0x46, 0xde, 0xdd }, { 0xf9, 0x83, 0xf5, 0x71, 0xc0, 0x71, 0x88, 0xb9 } },   /* gold_le */
  { { 0x7d, 0x1d, 0x3f, 0xd9, 0x34, 0x9c, 0x10, 0xe0 }, { 0x79, 0xd0, 0xeb, 0x34, 0x7b, 0x0d, 0x1a, 0xa2 } },   /* gold_le */
  { { 0x26, 0x84, 0xe3, 0x18, 0xae, 0xae, 0xce, 0x67 }, { 0x67, 0x82, 0xff, 0xfa, 0x7b, 0x65, 0x32, 0x0e } },   /* gold2_le */
  { { 0x1c, 0xc2, 0x51, 0x4e, 0xd6, 0x8e, 0x68, 0xd2 }, { 0x44, 0xa0, 0xf6, 0x56, 0xe4, 0x00, 0x9a, 0xbe } },   /* gold2_le */
  { { 0xd8, 0xb1, 0x81, 0x0a, 0x4a, 0xc2, 0x99, 0xa5 }, { 0x1a, 0xc6, 0xe1, 0xc1, 0xbe, 0xc1, 0x83, 0x02 } },   /* gold2_le */
  { { 0xbf, 0x9b, 0x39, 0x93, 0xb1, 0xd6, 0xa2, 0x29 }, { 0xa1, 0xd8, 0x35, 0xae, 0xc5, 0x71, 0x60, 0x96 } },   /* gold2_le */
  { { 0xa4, 0xdf, 0x09, 0x13, 0xff, 0x26, 0x3a, 0xc9 }, { 0x67, 0xe2, 0x6b, 0xbd, 0xfa, 0xf3, 0x01, 0xfa } },   /* fmixlo_le */
  { { 0x82, 0x85, 0x14, 0x9d, 0xb8, 0x50, 0x91, 0xc3 }, { 0xf3, 0x1b, 0x8f, 0xf1, 0x74, 0xb3, 0xdc, 0xcf } },   /* fmixlo_le */
  { { 0xfd, 0x79, 0xf1, 0x67, 0x1d, 0xe7, 0x50, 0x54 }, { 0x55, 0x32, 0x9d, 0x24, 0x72, 0x62, 0x20, 0xf4 } },   /* fmixlo_le */
  { { 0x76, 0x8b, 0xd7, 0xd8, 0xee, 0xa0, 0xb7, 0x45 }, { 0xc5, 0x82, 0xe8, 0x2f, 0xe0, 0x2e, 0x1f, 0x2d } },   /* fmixlo_le */
  { { 0xa0, 0x41, 0x4e, 0xa5, 0x22, 0xba, 0xaf, 0x0e }, { 0x4d, 0x9a, 0xe2, 0x69, 0x38, 0xb0, 0xe5, 0x26 } },   /* fmixhi_le */
  { { 0x81, 0x5c, 0x2c, 0xf4, 0x73, 0xb2, 0xa2, 0x95 }, { 0x7b, 0xe1, 0x8a, 0x91, 0xf8, 0x8d, 0xcb, 0x15 } },   /* fmixhi_le */
  { { 0xaf, 0x90, 0x84, 0xc3, 0x76, 0xfe, 0x9a, 0x0e }, { 0x18, 0xc6, 0xbe, 0x9c, 0xf1, 0x79, 0x6a, 0xd4 } },   /* fmixhi_le */
  { { 0xbc, 0x35, 0x5f, 0x50, 0x6e, 0x18, 0x82, 0x08 }, { 0x8b, 0x76, 0x18, 0x19, 0x95, 0xf7, 0x11, 0x9d } },   /* fmixhi_le */
  { { 0xdb, 0x00, 0xc2, 0x11, 0xcc, 0xc8, 0xe4, 0x11 }, { 0x4c, 0xaa, 0xf1, 0x46, 0xa4, 0x46, 0x9e, 0x0d } },   /* smixlo_le */
  { { 0xff, 0xd7, 0xd6, 0x59, 0x64, 0xc1, 0x6d, 0xd7 }, { 0xf8, 0xdb, 0x8f, 0x75, 0x6b, 0xf1, 0x55, 0x2c } },   /* smixlo_le */
  { { 0xa9, 0x42, 0x26, 0x11, 0x3e, 0xc3, 0xd9, 0xda }, { 0xde, 0x02, 0x03, 0xe3, 0xab, 0x16, 0x8c, 0x4d } },   /* smixlo_le */
  { { 0xd5, 0xc1, 0x87, 0x1d, 0xae, 0xa1, 0xe7, 0x36 }, { 0x3d, 0x91, 0xa9, 0x77, 0xa4, 0x97, 0x00, 0x3b } },   /* smixlo_le */
  { { 0xd1, 0x84, 0xab, 0x9b, 0xfe, 0xdb, 0x7b, 0xb1 }, { 0xa2, 0x48, 0xd5, 0x7c, 0x0b, 0xc4, 0x01, 0xc5 } },   /* smixhi_le */
  { { 0x92, 0x92, 0xae, 0xa3, 0x96, 0xf7, 0xec, 0xd2 }, { 0x2a, 0xda, 0xac, 0x72, 0x33, 0x29, 0x34, 0x00 } },   /* smixhi_le */
  { { 0xe1, 0x22, 0x39, 0x3c, 0x1f, 0x9b, 0x3e, 0xf8 }, { 0xf0, 0x8e, 0x53, 0xd1, 0x2c, 0xee, 0x0f, 0x29 } },   /* smixhi_le */
  { { 0x3b, 0x2b, 0x39, 0x9f, 0x74, 0x44, 0x80, 0x38 }, { 0xe0, 0xcd, 0x45, 0xf2, 0x56, 0x75, 0xae, 0x79 } },   /* smixhi_le */
  { { 0x0a, 0xa6, 0x40, 0x66, 0xb1, 0x61, 0xc3, 0x1c }, { 0xa9, 0x66, 0x09, 0x17, 0x82, 0x3c, 0xc4, 0xbe } },   /* knuth^hi_le */
  { { 0x8e, 0x62, 0x81, 0xc9, 0xb7, 0xd6, 0x10, 0x4f }, { 0x04, 0x15, 0x58, 0xbd, 0x5d, 0xff, 0x2d, 0x82 } },   /* knuth^hi_le */
  { { 0x9a, 0x5d, 0xae, 0xa5, 0xd5, 0x9e, 0xaa, 0x1d }, { 0x44, 0xb9, 0x4b, 0x48, 0xab, 0x23, 0xc0, 0x8e } },   /* knuth^hi_le */
  { { 0x8f, 0x42, 0x8d, 0x5e, 0x59, 0x49, 0x00, 0xa2 }, { 0x73, 0x8b, 0x77, 0x75, 0x05, 0x17, 0x9c, 0xb8 } },   /* knuth^hi_le */
  { { 0x84, 0xa3, 0xc3, 0xe9, 0x74, 0x48, 0xf8, 0x32 }, { 0x98, 0xf8, 0xb3, 0x43, 0xa8, 0x4b, 0x76, 0x9e } },   /* knuth(l^h*)_le */
  { { 0xb2, 0x0f, 0x34, 0x93, 0x78, 0x49, 0xaa, 0x92 }, { 0xf0, 0x47, 0x92, 0x81, 0xda, 0x9b, 0xbd, 0x66 } },   /* knuth(l^h*)_le */
  { { 0x5d, 0xff, 0xd5, 0x31, 0x42, 0x7c, 0xf1, 0xaf }, { 0xca, 0x4f, 0x12, 0x2b, 0xc5, 0xe6, 0xc2, 0x6d } },   /* knuth(l^h*)_le */
  { { 0xa8, 0xf9, 0x1d, 0xbe, 0xbd, 0x78, 0xf7, 0x2c }, { 0x2f, 0x3c, 0x54, 0xbf, 0x4a, 0xed, 0xed, 0x24 } },   /* knuth(l^h*)_le */
  { { 0x2a, 0xa0, 0x31, 0x40, 0x6f, 0xd2, 0x4a, 0x44 }, { 0xc8, 0xbc, 0xba, 0xcd, 0x4d, 0x5b, 0xb0, 0x20 } },   /* l*31+h_le */
  { { 0x23, 0x70, 0xbe, 0x0d, 0x70, 0x4f, 0xbd, 0x7e }, { 0x25, 0xe5, 0xdf, 0x1a, 0x32, 0x24, 0xb0, 0xe7 } },   /* l*31+h_le */
  { { 0xdf, 0x99, 0x4e, 0xc6, 0x9f, 0x9c, 0xc2, 0xfd }, { 0xeb, 0xfd, 0xb8, 0xa0, 0x2b, 0x7f, 0xe0, 0x8a } },   /* l*31+h_le */
  { { 0x46, 0x94, 0x13, 0xed, 0xe8, 0xba, 0xab, 0x4d }, { 0x99, 0xe4, 0xb3, 0x30, 0xdb, 0x00, 0x42, 0x1d } },   /* l*31+h_le */
  { { 0x59, 0x79, 0xed, 0xd2, 0x8e, 0x81, 0x04, 0x33 }, { 0x3f, 0x4d, 0xf5, 0x11, 0x34, 0x6a, 0xa9, 0xe6 } },   /* l+31h_le */
  { { 0xdc, 0x48, 0xd7, 0xbe, 0xe3, 0xea, 0xa2, 0x4c }, { 0x7c, 0x16, 0xfb, 0xed, 0x83, 0xec, 0x46, 0xf0 } },   /* l+31h_le */
  { { 0xc2, 0xdc, 0xc9, 0x67, 0x19, 0x75, 0x66, 0xf4 }, { 0xcc, 0xc0, 0xce, 0x5a, 0x63, 0x02, 0x3d, 0xa2 } },   /* l+31h_le */
  { { 0x92, 0xd3, 0xa2, 0x07, 0xd3, 0x01, 0xa7, 0x7b }, { 0x38, 0x68, 0x4e, 0xee, 0x39, 0xc3, 0xca, 0xc6 } },   /* l+31h_le */
  { { 0x71, 0x6d, 0x22, 0x68, 0xeb, 0x6c, 0xf6, 0xf3 }, { 0xe2, 0xdf, 0x81, 0x61, 0x48, 0x65, 0x65, 0x41 } },   /* l^rot16h_le */
  { { 0x98, 0xc6, 0x0e, 0x9a, 0x38, 0x93, 0x3d, 0x15 }, { 0x27, 0x30, 0x18, 0xc9, 0x2e, 0xc0, 0x82, 0xe3 } },   /* l^rot16h_le */
  { { 0x4c, 0x29, 0x47, 0xbc, 0x90, 0xbc, 0xce, 0x1a }, { 0xce, 0x09, 0xe2, 0xb9, 0x35, 0xb9, 0x4c, 0x3a } },   /* l^rot16h_le */
  { { 0xd7, 0xa0, 0x42, 0xb9, 0xb9, 0xbe, 0xd6, 0x4d }, { 0x1b, 0xe2, 0x98, 0x95, 0x63, 0x92, 0x1a, 0x0f } },   /* l^rot16h_le */
  { { 0xac, 0x0a, 0xeb, 0x0a, 0x5e, 0x20, 0x32, 0x85 }, { 0x0a, 0xd9, 0x7e, 0xbb, 0x8d, 0xc9, 0xf8, 0xdd } },   /* l^rot1h_le */
  { { 0xc3, 0x5b, 0x44, 0xa6, 0xff, 0x44, 0xe2, 0xdb }, { 0x68, 0x62, 0xd2, 0x63, 0x2a, 0x58, 0x29, 0x39 } },   /* l^rot1h_le */
  { { 0x63, 0xdc, 0xfc, 0x3b, 0x20, 0x64, 0x19, 0x9d }, { 0x73, 0x94, 0x4c, 0x53, 0x28, 0x40, 0x41, 0xa9 } },   /* l^rot1h_le */
  { { 0x05, 0xbf, 0xb2, 0x76, 0x04, 0x50, 0xe4, 0x38 }, { 0xc5, 0x4f, 0xc0, 0xd4, 0x64, 0x28, 0xdd, 0x69 } },   /* l^rot1h_le */
  { { 0xe9, 0xa6, 0xc7, 0xf0, 0x22, 0x1c, 0xc3, 0x8f }, { 0x9d, 0x5f, 0x2e, 0xb2, 0xe9, 0x53, 0xd4, 0x2d } },   /* l^rot5h_le */
  { { 0x4b, 0x58, 0xac, 0x20, 0xff, 0xbd, 0x8f, 0x71 }, { 0xf1, 0x0c, 0x6c, 0x8a, 0x5a, 0xbf, 0xd9, 0xa4 } },   /* l^rot5h_le */
  { { 0x70, 0x1c, 0x81, 0x0d, 0x3b, 0x6a, 0x43, 0xe8 }, { 0xa0, 0x0c, 0x19, 0xc5, 0xbd, 0xaa, 0x07, 0x6e } },   /* l^rot5h_le */
  { { 0x91, 0xd7, 0x66, 0xce, 0x3a, 0xe2, 0x4a, 0x66 }, { 0xa2, 0xbc, 0x38, 0x96, 0x63, 0x11, 0x88, 0xfc } },   /* l^rot5h_le */
  { { 0xb7, 0xab, 0x74, 0xb8, 0x84, 0x8c, 0x72, 0xe3 }, { 0x12, 0x4f, 0xa4, 0x31, 0x4d, 0x2d, 0x61, 0xa8 } },   /* l^rot7h_le */
  { { 0xe9, 0xfd, 0x11, 0xec, 0x8a, 0x4c, 0xe4, 0xaf }, { 0xb4, 0xb4, 0xbc, 0x6c, 0x18, 0x16, 0xe5, 0x14 } },   /* l^rot7h_le */
  { { 0xd0, 0x33, 0x50, 0x53, 0xf4, 0x0f, 0xa9, 0xac }, { 0xd2, 0x18, 0x21, 0x0b, 0xa2, 0xed, 0x19, 0xa8 } },   /* l^rot7h_le */
  { { 0xff, 0x9c, 0xdd, 0x78, 0x93, 0xcd, 0xe8, 0x48 }, { 0xbb, 0x59, 0x53, 0x67, 0x19, 0xd0, 0xd7, 0xc0 } },   /* l^rot7h_le */
  { { 0x27, 0x4e, 0x39, 0xf9, 0xd9, 0xd6, 0xb7, 0xfa }, { 0x63, 0xe2, 0x83, 0xbb, 0x0c, 0xc3, 0x95, 0x98 } },   /* l^rot13h_le */
  { { 0x4e, 0x4f, 0x5f, 0xc3, 0xb0, 0x4a, 0xd6, 0x8c }, { 0x43, 0x83, 0x46, 0xb6, 0x7e, 0xe2, 0xbd, 0xec } },   /* l^rot13h_le */
  { { 0x9c, 0x6c, 0x6d, 0x75, 0xb8, 0x8c, 0x8b, 0xcf }, { 0x98, 0x4b, 0xf6, 0xd9, 0x61, 0xe8, 0xae, 0xf7 } },   /* l^rot13h_le */
  { { 0x64, 0x7f, 0x42, 0x25, 0x8c, 0x5a, 0x91, 0x77 }, { 0x0b, 0xc2, 0x54, 0x21, 0x39, 0x7a, 0xe9, 0x9c } },   /* l^rot13h_le */
  { { 0xc6, 0x5e, 0x7f, 0x98, 0x4b, 0xce, 0xff, 0x9c }, { 0xf8, 0x44, 0xbe, 0x1b, 0x75, 0xd4, 0x3e, 0x1f } },   /* l^h_le */
  { { 0x34, 0x75, 0xd2, 0xb1, 0x95, 0x58, 0xa7, 0xbd }, { 0xc6, 0x3d, 0x9a, 0x99, 0x67, 0x10, 0xef, 0x95 } },   /* l^h_le */
  { { 0x67, 0x88, 0x9e, 0x8d, 0x07, 0x3f, 0x49, 0x8f }, { 0x3e, 0x4e, 0xfa, 0x86, 0x5e, 0xf9, 0x2d, 0x84 } },   /* l^h_le */
  { { 0x56, 0x51, 0xa4, 0x4b, 0xd4, 0xe1, 0x9a, 0x4f }, { 0x84, 0xef, 0x56, 0xc9, 0x06, 0x5f, 0x68, 0xcd } },   /* l^h_le */
  { { 0x7c, 0x78, 0x9c, 0x43, 0x52, 0xe1, 0x8f, 0xe1 }, { 0xfa, 0x4e, 0xb1, 0x27, 0xd4, 0x0a, 0x7b, 0xfd } },   /* l+h_le */
  { { 0x17, 0xdf, 0x88, 0xef, 0xcf, 0xb8, 0x14, 0x36 }, { 0x29, 0x02, 0x7e, 0xa9, 0xbd, 0x95, 0x1f, 0x7c } },   /* l+h_le */
  { { 0xd1, 0x87, 0x47, 0x9f, 0x11, 0x6c, 0xe3, 0x60 }, { 0x7e, 0x7c, 0x42, 0x3c, 0x64, 0x77, 0xe8, 0xc3 } },   /* l+h_le */
  { { 0x0f, 0xc1, 0xee, 0xbe, 0x07, 0xf4, 0x46, 0x41 }, { 0xf2, 0x57, 0x9d, 0xe6, 0x24, 0x5d, 0x98, 0x19 } },   /* l+h_le */
  { { 0x75, 0xe1, 0x4e, 0x76, 0xf9, 0xae, 0x30, 0xb4 }, { 0x4e, 0xcb, 0xab, 0xb6, 0x1c, 0x4e, 0x6d, 0xd9 } },   /* l*fnv^h_le */
  { { 0x8d, 0xbb, 0xd7, 0x2c, 0xff, 0x1a, 0xa0, 0x04 }, { 0xa6, 0xd4, 0xba, 0x51, 0x5a, 0xe5, 0x20, 0x6f } },   /* l*fnv^h_le */
  { { 0x1e, 0x8d, 0x58, 0x03, 0x4a, 0x95, 0x84, 0x63 }, { 0x1b, 0x3f, 0xd4, 0x2e, 0xf1, 0xe4, 0xfd, 0xd2 } },   /* l*fnv^h_le */
  { { 0x60, 0x24, 0x21, 0xa5, 0xff, 0x8c, 0xd3, 0x5e }, { 0x5e, 0xe2, 0xdd, 0x1d, 0x25, 0x96, 0xb4, 0x6f } },   /* l*fnv^h_le */
  { { 0x08, 0xbe, 0x98, 0xea, 0x2c, 0x35, 0x03, 0xe3 }, { 0x1e, 0xdb, 0x5c, 0xd2, 0x42, 0x52, 0xc7, 0xca } },   /* l-h_le */
  { { 0xec, 0x22, 0xeb, 0x0c, 0x13, 0xea, 0xce, 0xfe }, { 0x36, 0xae, 0x8f, 0x24, 0x5d, 0x75, 0x73, 0x16 } },   /* l-h_le */
  { { 0x42, 0x35, 0x7c, 0xf3, 0x60, 0x36, 0x5d, 0xf3 }, { 0x49, 0xe6, 0xcd, 0xfc, 0x67, 0xe7, 0xae, 0xfc } },   /* l-h_le */
  { { 0x04, 0x92, 0xc2, 0x58, 0x19, 0xcc, 0x73, 0x58 }, { 0xc9, 0xad, 0xda, 0x50, 0xde, 0xe7, 0x8b, 0x50 } },   /* l-h_le */
  { { 0xe4, 0xc3, 0x66, 0x8b, 0xfe, 0xea, 0x82, 0x62 }, { 0x48, 0xe6, 0x24, 0xc5, 0xcf, 0x5d, 0x9a, 0xc0 } },   /* gold_be */
  { { 0x8b, 0xbf, 0x0e, 0x31, 0x4f, 0x26, 0xc2, 0xe0 }, { 0x91, 0xda, 0x9b, 0x9c, 0xcb, 0x7a, 0x02, 0xa9 } },   /* gold_be */
  { { 0xe3, 0xaf, 0xc3, 0x55, 0xdc, 0xfb, 0xdf, 0xb6 }, { 0x95, 0xb4, 0x01, 0x4a, 0x8f, 0x46, 0xd3, 0xa8 } },   /* gold_be */
  { { 0xe2, 0x51, 0x66, 0x99, 0xda, 0x2d, 0x7a, 0x81 }, { 0xc4, 0x8e, 0xc1, 0x13, 0xb1, 0x9e, 0x16, 0x65 } },   /* gold_be */
  { { 0xbc, 0x87, 0x8f, 0x09, 0x72, 0x52, 0xdc, 0x2e }, { 0x18, 0x71, 0x1c, 0x05, 0x01, 0x38, 0xaa, 0x42 } },   /* gold2_be */
  { { 0x10, 0x03, 0xa0, 0x34, 0x63, 0xa8, 0x16, 0x79 }, { 0x7f, 0x84, 0x43, 0x32, 0x6a, 0x90, 0x9b, 0xa6 } },   /* gold2_be */
  { { 0x41, 0xcd, 0xe9, 0xf7, 0xd1, 0x1a, 0xfb, 0xe6 }, { 0x97, 0xd4, 0x87, 0xf2, 0xf0, 0xe5, 0xfc, 0xd1 } },   /* gold2_be */
  { { 0x21, 0xcf, 0x31, 0x21, 0x9a, 0x9e, 0x64, 0x9c }, { 0x03, 0xaa, 0xae, 0x5b, 0xe3, 0xa3, 0x4f, 0xd5 } },   /* gold2_be */
  { { 0xd0, 0xc5, 0x1c, 0x75, 0x66, 0xd8, 0x1d, 0x6b }, { 0xd8, 0x8b, 0x59, 0xaa, 0x1f, 0xcb, 0xb4, 0x03 } },   /* fmixlo_be */
  { { 0x6d, 0x1c, 0x70, 0x29, 0x79, 0x24, 0x5d, 0x8a }, { 0xa4, 0xf2, 0x60, 0xdb, 0x6e, 0xd8, 0x7e, 0x07 } },   /* fmixlo_be */
  { { 0xe3, 0xd2, 0x91, 0x46, 0x30, 0x1b, 0x68, 0xb3 }, { 0xf0, 0x85, 0xb6, 0x2b, 0x77, 0x78, 0xd1, 0xc0 } },   /* fmixlo_be */
  { { 0xd3, 0x5d, 0x9e, 0xce, 0x1e, 0x5f, 0x74, 0xf1 }, { 0x2a, 0xf2, 0xb6, 0xd2, 0x0c, 0xe9, 0x59, 0x4e } },   /* fmixlo_be */
  { { 0x68, 0x3c, 0xcc, 0x83, 0x72, 0x5d, 0x87, 0xd1 }, { 0xa4, 0x15, 0x17, 0x2c, 0xf7, 0xcf, 0x41, 0x17 } },   /* fmixhi_be */
  { { 0x25, 0x5b, 0x9b, 0x0d, 0xae, 0xd5, 0xef, 0x07 }, { 0x4d, 0x4c, 0x67, 0x9a, 0x72, 0xda, 0x57, 0xe9 } },   /* fmixhi_be */
  { { 0xce, 0x1a, 0x08, 0xf0, 0xdc, 0x8c, 0xe0, 0x48 }, { 0xae, 0x2d, 0x65, 0x40, 0xf2, 0xb1, 0xd7, 0x7a } },   /* fmixhi_be */
  { { 0xad, 0xc5, 0xa0, 0x12, 0x5b, 0xe7, 0xe6, 0x28 }, { 0x5a, 0x45, 0x99, 0x38, 0xfa, 0xed, 0xc4, 0xab } },   /* fmixhi_be */
  { { 0x44, 0xf3, 0xa0, 0xa1, 0x18, 0x8b, 0xcb, 0x8f }, { 0x2a, 0xe3, 0xc8, 0xe0, 0xae, 0x74, 0xc2, 0xfc } },   /* smixlo_be */
  { { 0x70, 0x4a, 0x04, 0x72, 0x35, 0x13, 0x66, 0x5a }, { 0xe2, 0xcd, 0x15, 0x72, 0x59, 0xaa, 0xbb, 0x45 } },   /* smixlo_be */
  { { 0x46, 0xea, 0xbe, 0xee, 0x2b, 0x74, 0xd1, 0x70 }, { 0x99, 0x19, 0xee, 0xa0, 0x2d, 0xbe, 0x34, 0x1f } },   /* smixlo_be */
  { { 0xfe, 0xc3, 0xb9, 0x7a, 0x3b, 0xca, 0x77, 0x7c }, { 0xec, 0xf0, 0xa5, 0x81, 0x6f, 0x12, 0xec, 0x6d } },   /* smixlo_be */
  { { 0x58, 0x49, 0xbd, 0xa8, 0x0f, 0x03, 0x51, 0x42 }, { 0x9c, 0xd6, 0x30, 0x81, 0xc9, 0xf7, 0x0f, 0xc0 } },   /* smixhi_be */
  { { 0x76, 0x08, 0xe0, 0x7d, 0x85, 0xd3, 0xd3, 0x01 }, { 0xfe, 0x4e, 0xbe, 0xcb, 0x10, 0x23, 0x5c, 0xc2 } },   /* smixhi_be */
  { { 0xfa, 0xca, 0x88, 0x4c, 0xbb, 0x00, 0xfb, 0xb6 }, { 0x76, 0xdd, 0x29, 0x7c, 0x37, 0x01, 0x0b, 0x43 } },   /* smixhi_be */
  { { 0x3b, 0x01, 0x69, 0xa5, 0x58, 0xa0, 0x6f, 0x67 }, { 0xd8, 0xa2, 0x75, 0xef, 0x02, 0xb2, 0x1b, 0xcf } },   /* smixhi_be */
  { { 0x81, 0xf4, 0x5e, 0x2a, 0xaa, 0xaa, 0xfe, 0xf7 }, { 0xdd, 0x9e, 0x4f, 0xe0, 0x5c, 0x80, 0x12, 0x1d } },   /* knuth^hi_be */
  { { 0xd7, 0x23, 0x07, 0xfe, 0xf8, 0x8d, 0x4e, 0xa2 }, { 0x55, 0x23, 0x32, 0xba, 0x03, 0x59, 0x26, 0xa6 } },   /* knuth^hi_be */
  { { 0x9b, 0xa2, 0x95, 0xd2, 0x49, 0x51, 0x79, 0x13 }, { 0x12, 0xd9, 0x43, 0x2e, 0x82, 0xdc, 0x91, 0xef } },   /* knuth^hi_be */
  { { 0x00, 0x88, 0x0b, 0x93, 0xfa, 0xf3, 0x8e, 0x7b }, { 0xf9, 0xe9, 0xf1, 0xd3, 0x94, 0x8f, 0x18, 0x3b } },   /* knuth^hi_be */
  { { 0x07, 0xb7, 0x7d, 0x42, 0x0a, 0x94, 0x7a, 0xc6 }, { 0xe2, 0xbc, 0x4a, 0x87, 0xd5, 0x22, 0x77, 0x13 } },   /* knuth(l^h*)_be */
  { { 0x95, 0x54, 0xb5, 0x15, 0xec, 0x43, 0x41, 0x19 }, { 0x74, 0xec, 0xa7, 0x33, 0x59, 0x90, 0x95, 0x1f } },   /* knuth(l^h*)_be */
  { { 0x41, 0x38, 0x29, 0xa2, 0x2a, 0xe9, 0x9f, 0xb2 }, { 0xb0, 0x28, 0x8a, 0x62, 0x97, 0x2c, 0xaf, 0x72 } },   /* knuth(l^h*)_be */
  { { 0x3b, 0x99, 0xc4, 0x98, 0x22, 0x37, 0x15, 0x6e }, { 0xe7, 0x66, 0x08, 0x55, 0xcd, 0xe9, 0xfd, 0xb3 } },   /* knuth(l^h*)_be */
  { { 0x6b, 0xac, 0x0c, 0xaa, 0x07, 0x4d, 0x87, 0xc5 }, { 0x3a, 0x89, 0xd9, 0x2e, 0xfa, 0x71, 0xc3, 0xc9 } },   /* l*31+h_be */
  { { 0x51, 0x6f, 0xd8, 0x21, 0x37, 0xac, 0xb8, 0xd6 }, { 0x56, 0x0f, 0x8e, 0x3a, 0xa8, 0x55, 0xab, 0xcf } },   /* l*31+h_be */
  { { 0x86, 0x33, 0xd3, 0x8c, 0xc3, 0x94, 0x3b, 0x92 }, { 0x20, 0x1a, 0x9f, 0xd9, 0x20, 0xa1, 0x7e, 0x3f } },   /* l*31+h_be */
  { { 0x9b, 0xa2, 0x5d, 0x9a, 0x2c, 0x9d, 0x74, 0x3d }, { 0x84, 0x0c, 0xfc, 0x8c, 0x07, 0xb4, 0x34, 0xef } },   /* l*31+h_be */
  { { 0x88, 0x03, 0x50, 0x7f, 0xc2, 0x0d, 0xc5, 0xa1 }, { 0x1a, 0xe0, 0xda, 0x79, 0xff, 0x61, 0x76, 0xdb } },   /* l+31h_be */
  { { 0x82, 0x34, 0x66, 0x45, 0x67, 0xf2, 0x20, 0xb7 }, { 0xda, 0xa9, 0x6c, 0x19, 0x2b, 0x49, 0x31, 0x0b } },   /* l+31h_be */
  { { 0x37, 0xab, 0xef, 0xd1, 0x16, 0xff, 0x01, 0x16 }, { 0x44, 0x89, 0x23, 0xf0, 0x0e, 0x52, 0xb5, 0x15 } },   /* l+31h_be */
  { { 0x40, 0x6b, 0x4d, 0xf8, 0x0e, 0x93, 0x35, 0xd6 }, { 0x25, 0x57, 0x98, 0x14, 0x40, 0xff, 0x33, 0x72 } },   /* l+31h_be */
  { { 0xa0, 0xec, 0xfe, 0x7c, 0xf3, 0xcc, 0xab, 0x77 }, { 0x48, 0xcb, 0xcb, 0x23, 0xc6, 0x93, 0x43, 0x50 } },   /* l^rot16h_be */
  { { 0x86, 0xef, 0xba, 0x02, 0x72, 0x16, 0x88, 0xa3 }, { 0x90, 0x9e, 0xc0, 0x49, 0x08, 0x5d, 0x9e, 0xd2 } },   /* l^rot16h_be */
  { { 0xb7, 0x80, 0xaf, 0xe6, 0xad, 0x16, 0xb2, 0x75 }, { 0xee, 0x17, 0xe0, 0xe5, 0xe2, 0x15, 0xeb, 0xe2 } },   /* l^rot16h_be */
  { { 0xdb, 0xe4, 0xe9, 0xa8, 0x5a, 0x05, 0xdc, 0x3b }, { 0xac, 0x75, 0xec, 0x0d, 0x5f, 0xa0, 0xab, 0xaa } },   /* l^rot16h_be */
  { { 0x16, 0x6a, 0xcb, 0x99, 0x0e, 0x61, 0xa1, 0x1b }, { 0x9a, 0xe5, 0x04, 0xf0, 0xc8, 0x26, 0x46, 0xaf } },   /* l^rot1h_be */
  { { 0xde, 0x51, 0x1a, 0x6b, 0xea, 0xe3, 0xa5, 0x59 }, { 0x2b, 0x62, 0xf2, 0x7c, 0x10, 0x7a, 0x51, 0x52 } },   /* l^rot1h_be */
  { { 0x3f, 0xc9, 0xb5, 0xbd, 0x9f, 0xcf, 0x3d, 0xab }, { 0x3f, 0x0b, 0x75, 0xbf, 0x9f, 0xae, 0x5d, 0xaa } },   /* l^rot1h_be */
  { { 0xbe, 0xe7, 0x40, 0xe5, 0xdf, 0xb6, 0xa5, 0x3a }, { 0x18, 0xe6, 0xb0, 0xae, 0x0c, 0xb6, 0x5d, 0x1f } },   /* l^rot1h_be */
  { { 0x26, 0x8c, 0x9d, 0x66, 0x21, 0x2f, 0x7c, 0xd7 }, { 0x8e, 0xa5, 0xc5, 0xc6, 0x24, 0x6e, 0x36, 0x12 } },   /* l^rot5h_be */
  { { 0x78, 0xf3, 0x6f, 0x07, 0xd3, 0xe9, 0xef, 0x81 }, { 0x67, 0x58, 0xf3, 0x9e, 0x1b, 0x14, 0xb3, 0x65 } },   /* l^rot5h_be */
  { { 0x43, 0xec, 0xbc, 0xeb, 0xd2, 0xb7, 0x15, 0x9e }, { 0xe7, 0xb5, 0x5b, 0xf7, 0x37, 0x95, 0xda, 0xa6 } },   /* l^rot5h_be */
  { { 0xaf, 0x0e, 0x73, 0x30, 0x14, 0x41, 0x45, 0x9a }, { 0x76, 0x72, 0x6c, 0x54, 0x32, 0x8a, 0xa5, 0x61 } },   /* l^rot5h_be */
  { { 0xa0, 0x51, 0x49, 0xdc, 0x25, 0x4f, 0x38, 0x37 }, { 0xdb, 0xcf, 0xbf, 0xda, 0x29, 0xb8, 0x05, 0xdb } },   /* l^rot7h_be */
  { { 0x8f, 0x14, 0x78, 0x22, 0x21, 0x04, 0x85, 0xd1 }, { 0x4a, 0x13, 0xf5, 0x97, 0x4a, 0x8e, 0x8a, 0xca } },   /* l^rot7h_be */
  { { 0xcf, 0xcf, 0x61, 0xff, 0xb9, 0x96, 0x87, 0xd6 }, { 0x3d, 0x53, 0x11, 0xa1, 0x04, 0x73, 0xbf, 0x36 } },   /* l^rot7h_be */
  { { 0xb4, 0x3f, 0xec, 0xdf, 0x07, 0x7c, 0x72, 0xf5 }, { 0x33, 0xda, 0xdc, 0xe9, 0x6a, 0x73, 0xb8, 0x95 } },   /* l^rot7h_be */
  { { 0x68, 0xf1, 0xff, 0x40, 0xfe, 0xdb, 0x59, 0x77 }, { 0xac, 0xcc, 0xa5, 0x9d, 0x28, 0x35, 0x78, 0x9d } },   /* l^rot13h_be */
  { { 0x4f, 0xed, 0x8b, 0xe1, 0x99, 0x72, 0x4a, 0xa9 }, { 0x52, 0x6b, 0x8b, 0xa2, 0x9b, 0x6a, 0xa6, 0x99 } },   /* l^rot13h_be */
  { { 0x6f, 0x6e, 0x74, 0x51, 0xc2, 0x93, 0xa0, 0xf5 }, { 0xf4, 0xf2, 0xd4, 0xba, 0xc5, 0xcf, 0x7c, 0x10 } },   /* l^rot13h_be */
  { { 0x99, 0xb2, 0x05, 0x50, 0x1e, 0xec, 0x20, 0x2a }, { 0x8f, 0xf1, 0xd3, 0x53, 0xae, 0xf4, 0x92, 0x34 } },   /* l^rot13h_be */
  { { 0x22, 0x4a, 0x93, 0x2d, 0x25, 0xda, 0xaa, 0x1b }, { 0xd9, 0xde, 0xa5, 0xc2, 0xde, 0x4e, 0x9c, 0xf4 } },   /* l^h_be */
  { { 0x82, 0xdc, 0xc8, 0xfe, 0xab, 0x9f, 0x64, 0xc9 }, { 0x24, 0x13, 0xb8, 0x4f, 0x0d, 0x50, 0x14, 0x78 } },   /* l^h_be */
  { { 0x0c, 0x9a, 0x32, 0xd8, 0x09, 0x5a, 0xe4, 0x47 }, { 0xda, 0x00, 0x38, 0x12, 0xdf, 0xc0, 0xee, 0x8d } },   /* l^h_be */
  { { 0x69, 0x40, 0xb1, 0x5a, 0x60, 0x28, 0x81, 0x09 }, { 0x55, 0xca, 0xb3, 0xd2, 0x5c, 0xa2, 0x83, 0x81 } },   /* l^h_be */
  { { 0x49, 0xf7, 0xc9, 0x31, 0xc0, 0x97, 0xbd, 0x2d }, { 0x0f, 0x06, 0xcc, 0xd1, 0xfb, 0x88, 0xb9, 0x8d } },   /* l+h_be */
  { { 0x7c, 0x49, 0xfe, 0xc6, 0xa1, 0x5b, 0x92, 0xc4 }, { 0x67, 0x7c, 0xbb, 0xd1, 0xb6, 0x28, 0xd5, 0xb9 } },   /* l+h_be */
  { { 0xcd, 0xcd, 0x95, 0x2f, 0x32, 0x38, 0x8c, 0xf6 }, { 0x30, 0x30, 0x71, 0xd1, 0xcf, 0xd5, 0xb0, 0x54 } },   /* l+h_be */
  { { 0x9e, 0x1b, 0x51, 0x0a, 0x61, 0xf1, 0x6c, 0xbe }, { 0x46, 0xd2, 0xa2, 0xba, 0xb9, 0x3a, 0x1b, 0x0e } },   /* l+h_be */
  { { 0xa2, 0x6c, 0x6f, 0x82, 0x33, 0x31, 0x96, 0x92 }, { 0x46, 0xe0, 0x01, 0xf9, 0x8a, 0x21, 0x05, 0xcf } },   /* l*fnv^h_be */
  { { 0x0b, 0x76, 0x98, 0x20, 0x21, 0x90, 0x1a, 0x5a }, { 0xa3, 0xb9, 0x66, 0xe0, 0x96, 0xfd, 0x92, 0x9a } },   /* l*fnv^h_be */
  { { 0x0c, 0x47, 0xf2, 0x45, 0x90, 0xdf, 0x63, 0xd2 }, { 0xf1, 0x1b, 0x5a, 0x66, 0xfe, 0x92, 0x4f, 0xdf } },   /* l*fnv^h_be */
  { { 0xe8, 0x41, 0xf5, 0x1e, 0x8d, 0x82, 0x19, 0x28 }, { 0x74, 0xca, 0x4a, 0x88, 0x52, 0x25, 0x93, 0x0a } },   /* l*fnv^h_be */
  { { 0xff, 0x37, 0x95, 0x71, 0xf6, 0x8e, 0x4a, 0xfa }, { 0xaa, 0x53, 0x71, 0x19, 0xa1, 0xaa, 0x26, 0xa2 } },   /* l-h_be */
  { { 0x7b, 0x29, 0x30, 0xd0, 0x62, 0x24, 0x82, 0xd2 }, { 0x22, 0x14, 0x3d, 0xf1, 0x09, 0x0f, 0x8f, 0xf3 } },   /* l-h_be */
  { { 0xee, 0xcd, 0x80, 0x3b, 0xee, 0xa4, 0x63, 0xf5 }, { 0x3b, 0xa5, 0x4f, 0x2f, 0x3b, 0x7c, 0x32, 0xe9 } },   /* l-h_be */
  { { 0x9f, 0x29, 0x8d, 0x55, 0x9e, 0xad, 0xb6, 0x01 }, { 0x81, 0xd9, 0xd6, 0x30, 0x81, 0x5d, 0xfe, 0xdc } },   /* l-h_be */
};
