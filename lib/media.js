"use strict";
// Tiny media files, built from bytes (the repository's own JPEG fixtures are
// git-lfs pointers here).
const HEX =
  "ffd8ffdb004300080606070605080707070909080a0c140d0c0b0b0c1912130f141d1a1f1e1d1a1c1c20242e2720222c231c1c2837292c30313434341f27393d38323c2e333432" +
  "ffc0000b080001000101011100ffc4001f0000010501010101010100000000000000000102030405060708090a0b" +
  "ffc400b5100002010303020403050504040000017d01020300041105122131410613516107227114328191a1082342b1c11552d1f02433627282090a161718191a25262728292a3435363738393a434445464748494a535455565758595a636465666768696a737475767778797a838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae1e2e3e4e5e6e7e8e9eaf1f2f3f4f5f6f7f8f9fa" +
  "ffda0008010100003f00fbd0ffd9";
exports.jpeg = Buffer.from(HEX, "hex");

/** a colour profile that holds nothing but its description */
function icc(description) {
  const d = Buffer.alloc(92 + description.length);
  d.write("desc", 0);
  d.writeUInt32BE(description.length + 1, 8);
  d.write(description, 12, "latin1");
  const b = Buffer.alloc(144 + d.length);
  b.writeUInt32BE(b.length, 0);
  b.write("test", 4);
  b.writeUInt32BE(0x02100000, 8);
  b.write("mntrRGB XYZ ", 12);
  b.writeUInt16BE(2020, 24);
  b.writeUInt16BE(1, 26);
  b.writeUInt16BE(1, 28);
  b.write("acsp", 36);
  b.writeUInt32BE(1, 128);
  b.write("desc", 132);
  b.writeUInt32BE(144, 136);
  b.writeUInt32BE(d.length, 140);
  d.copy(b, 144);
  return b;
}
exports.jpegWithProfile = (description) => {
  const seg = Buffer.concat([Buffer.from("ICC_PROFILE\0\x01\x01", "latin1"), icc(description)]);
  const h = Buffer.from([0xff, 0xe2, 0, 0]);
  h.writeUInt16BE(seg.length + 2, 2);
  return Buffer.concat([exports.jpeg.subarray(0, 2), h, seg, exports.jpeg.subarray(2)]);
};
