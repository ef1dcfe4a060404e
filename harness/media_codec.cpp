// Headers of the coded streams: NAL units, parameter sets, slice headers, SEI, AAC and MPEG audio headers, against an independent writer.
#include <mgcore.h>
#include <mg/core/file.h>
#include <mg/media/TBitstream.h>
#include "mp4parse.h"
#include "mp4write.h"
#include "mp4/mpeg2au.h"
#include "media_pkg.h"
#include <memory>
using namespace ALX;
// an object in storage which is not clean: what the code does not set is seen
template <class T> struct Dirty { void* m; T* p; template <class... A> explicit Dirty(int fill, A&&... a) { m = ::operator new(sizeof(T)); memset(m, fill, sizeof(T)); p = new (m) T(std::forward<A>(a)...); } ~Dirty() { p->~T(); ::operator delete(m); } T* operator->() { return p; } T& operator*() { return *p; } };
static int dirt(Ctx& c) { static const int F[] = {0, 0xff, 0xA5, 1}; return F[c.rng.below(4)]; }
// bits of a decoded NAL unit behind its header, in storage of exactly that size
struct Bits { std::unique_ptr<unsigned char[]> b; size_t n; FixedMemoryBitstream s; Bits(const Bytes& d, size_t skip) : b(new unsigned char[d.size() - skip]), n(d.size() - skip), s((memcpy(b.get(), d.data() + skip, n), b.get()), (uint32_t)n) {} };
static Bytes unescape(Ctx& c, H264Nal& nal, const Bytes& n) { std::unique_ptr<unsigned char[]> e(new unsigned char[n.size()]); memcpy(e.get(), n.data(), n.size()); nal.decode_nal((unsigned)n.size(), e.get()); return Bytes(nal.decoded_rbsp(), nal.decoded_rbsp() + nal.decoded_rbsp_size()); }

static void nal(Ctx& c) {
  H264Nal dn; for (int round = 0; round < 4; round++) {
    Bytes r; u8(r, (uint32_t)c.rng.range(1, 127)); size_t n = c.rng.size(c.thorough ? 6000 : 2500); unsigned z = (unsigned)c.rng.below(4); for (size_t i = 0; i < n; i++) u8(r, z && c.rng.chance(z, 5) ? (c.rng.chance(1, 4) ? (uint32_t)c.rng.below(5) : 0) : (uint32_t)c.rng.below(256)); if (r.size() > 1 && r.back() == 0) r.back() = 0x80;
    Bytes e = nal_escape(r); Bytes d = unescape(c, dn, e); c.note(fmt("%zu bytes coded in %zu; ", r.size(), e.size()));
    VREQ(c, d == r, "nal-bytes", "%zu bytes coded in %zu: decoded to %zu", r.size(), e.size(), d.size()); VREQ(c, dn.get_decoded_nal_unit_type() == (r[0] & 31u) && dn.get_decoded_nal_ref_idc() == (r[0] >> 5), "nal-header", "%02x: type %u ref %u", r[0], dn.get_decoded_nal_unit_type(), dn.get_decoded_nal_ref_idc());
    std::unique_ptr<unsigned char[]> in(new unsigned char[e.size()]); memcpy(in.get(), e.data(), e.size()); unsigned ref, type, sz; dn.decode_nal_in_place(ref, type, sz, (unsigned)e.size(), in.get()); VREQ(c, sz == r.size() && !memcmp(in.get(), r.data(), sz), "nal-in-place", "%u bytes want %zu", sz, r.size());
    c.count("nal_units"); c.count("escapes", e.size() - r.size()); c.feature(e.size() - r.size() > 0 ? fmt("esc%zu", (size_t)log2(e.size() - r.size())) : "plain");
  }
}
#define EQ(a, w, k) VREQ(c, (long long)(a) == (long long)(w), k, #a ": %lld want %lld", (long long)(a), (long long)(w))
static void hrd(Ctx& c, const hrd_parameters* h, const Hrd& w) {
  VREQ(c, h, "hrd", "missing"); EQ(h->cpb_cnt_minus1, w.cnt, "hrd"); EQ(h->bit_rate_scale, w.brs, "hrd"); EQ(h->cpb_size_scale, w.cbs, "hrd"); for (unsigned i = 0; i <= w.cnt; i++) { EQ(h->bit_rate_value_minus1[i], w.br[i], "hrd"); EQ(h->cpb_size_value_minus1[i], w.cs[i], "hrd"); }
  EQ(h->initial_cpb_removal_delay_length_minus1, w.icd, "hrd"); EQ(h->cpb_removal_delay_length_minus1, w.crd, "hrd"); EQ(h->dpb_output_delay_length_minus1, w.dod, "hrd"); EQ(h->time_offset_length, w.tol, "hrd"); c.count("hrd");
}
static void sps(Ctx& c) {
  Sps w = make_sps(c.rng); if (c.rng.chance(1, 8)) { w.ofnrp = (int)(int32_t)c.rng.next(); if (w.ofnrp == INT32_MIN) w.ofnrp++; w.oftbf = (int)c.rng.range(-40000000, 40000000); } if (w.vui && c.rng.chance(1, 8)) w.nh.br[0] = 0xfffffffeu; if (w.vui && c.rng.chance(1, 8)) w.vh_.cs[0] = (uint32_t)c.rng.next() | 0x80000000u, w.vh_.cs[0] -= w.vh_.cs[0] == ~0u;
  Bytes raw = {0x67}; app(raw, w.rbsp()); Bytes n = w.nal(); c.note(fmt("profile %d poc %u vui %d %zu bytes", w.profile, w.poctype, w.vui, n.size())); H264Nal dn; Bytes d = unescape(c, dn, n); VREQ(c, d == raw, "nal-bytes", "%zu want %zu", d.size(), raw.size()); EQ(dn.get_decoded_nal_unit_type(), 7, "nal-header");
  Bits b(d, 1); Dirty<H264Sequence> s(dirt(c)); s->get(b.s); VREQ(c, b.s.get_position() == b.n, "sps-length", "%lld of %zu bytes", ll(b.s.get_position()), b.n);
  EQ(s->profile_idc, w.profile, "sps"); EQ(s->constraint_set0_flag * 8 + s->constraint_set1_flag * 4 + s->constraint_set2_flag * 2 + s->constraint_set3_flag, w.constraints, "sps"); EQ(s->level_idc, w.level, "sps"); EQ(s->seq_parameter_set_id, w.id, "sps");
  if (w.profile >= 100) { EQ(s->chroma_format_idc, w.chroma, "sps"); if (w.chroma == 3) EQ(s->residual_color_transform_flag, w.sepcol, "sps"); EQ(s->bit_depth_luma, w.bdl, "sps"); EQ(s->bit_depth_chroma, w.bdc, "sps"); EQ(s->transform_bypass, w.bypass, "sps"); }
  EQ(s->log2_max_frame_num_minus4, w.log2fn, "sps"); EQ(s->pic_order_cnt_type, w.poctype, "sps"); if (w.poctype == 0) EQ(s->log2_max_pic_order_cnt_lsb_minus4, w.log2poc, "sps");
  if (w.poctype == 1) { EQ(s->delta_pic_order_always_zero_flag, w.dpoaz, "sps"); EQ((int)s->offset_for_non_ref_pic, w.ofnrp, "sps-signed"); EQ((int)s->offset_for_top_to_bottom_field, w.oftbf, "sps-signed"); EQ(s->num_ref_frames_in_pic_order_cnt_cycle, w.ofrf.size(), "sps"); }
  EQ(s->num_ref_frames, w.refs, "sps"); EQ(s->gaps_in_frame_num_value_allowed_flag, w.gaps, "sps"); EQ(s->pic_width_in_mbs_minus1, w.wmb, "sps"); EQ(s->pic_height_in_map_units_minus1, w.hmb, "sps"); EQ(s->frame_mbs_only_flag, w.fmo, "sps"); EQ(s->mb_adaptive_frame_field_flag, w.fmo ? 0 : w.mbaff, "sps"); EQ(s->direct_8x8_inference_flag, w.d8, "sps"); EQ(s->frame_cropping_flag, w.crop, "sps");
  if (w.crop) { EQ(s->frame_crop_left_offset, w.cl, "sps"); EQ(s->frame_crop_right_offset, w.cr, "sps"); EQ(s->frame_crop_top_offset, w.ct, "sps"); EQ(s->frame_crop_bottom_offset, w.cb, "sps"); }
  EQ(s->vui_parameters_present_flag, w.vui, "sps"); VREQ(c, !s->VUI == !w.vui, "vui", "%p", (void*)s->VUI);
  if (w.vui) {
    auto& v = *s->VUI; EQ(v.aspect_ratio_info_present_flag, w.ari, "vui"); if (w.ari) { EQ(v.aspect_ratio_idc, w.idc, "vui"); if (w.idc == 255) { EQ(v.sar_width, w.sarw, "vui"); EQ(v.sar_height, w.sarh, "vui"); } } EQ(v.overscan_info_present_flag, w.ovi, "vui"); if (w.ovi) EQ(v.overscan_appropriate_flag, w.ova, "vui");
    EQ(v.video_signal_type_present_flag, w.vst, "vui"); if (w.vst) { EQ(v.video_format, w.vf, "vui"); EQ(v.video_full_range_flag, w.vfr, "vui"); EQ(v.colour_description_present_flag, w.cdp, "vui"); if (w.cdp) { EQ(v.colour_primaries, w.cp, "vui"); EQ(v.transfer_characteristics, w.tc, "vui"); EQ(v.matrix_coefficients, w.mc, "vui"); } }
    EQ(v.chroma_loc_info_present_flag, w.clp, "vui"); if (w.clp) { EQ(v.chroma_sample_loc_type_top_field, w.clt, "vui"); EQ(v.chroma_sample_loc_type_bottom_field, w.clb, "vui"); } EQ(v.timing_info_present_flag, w.ti, "vui"); if (w.ti) { EQ(v.num_units_in_tick, w.nuit, "vui"); EQ(v.time_scale, w.tsc, "vui"); EQ(v.fixed_frame_rate_flag, w.ffr, "vui"); }
    EQ(v.nal_hrd_parameters_present_flag, w.nhrd, "vui"); EQ(v.vcl_hrd_parameters_present_flag, w.vhrd, "vui"); if (w.nhrd) hrd(c, v.HRD, w.nh); if (w.vhrd) hrd(c, v.VLC_HRD, w.vh_); if (c.failed) return; if (w.nhrd || w.vhrd) EQ(v.low_delay_hrd_flag, w.ldh, "vui"); EQ(v.pic_struct_present_flag, w.psp, "vui"); EQ(v.bitstream_restriction_flag, w.br, "vui");
    if (w.br) { EQ(v.motion_vectors_over_pic_boundaries_flag, w.mvob, "vui"); EQ(v.max_bytes_per_pic_denom, w.mbpp, "vui"); EQ(v.max_bits_per_mb_denom, w.mbpm, "vui"); EQ(v.log2_max_mv_length_horizontal, w.mlh, "vui"); EQ(v.log2_max_mv_length_vertical, w.mlv, "vui"); EQ(v.num_reorder_frames, w.nrf, "vui"); EQ(v.max_dec_frame_buffering, w.mdfb, "vui"); } c.count("vui");
  }
  // the configuration record the writers make of it
  Pps pw = make_pps(c.rng, w.id); Bytes pn = pw.nal(); if (n.size() <= 256 && !(w.crop && w.chroma != 1 && w.profile >= 100)) {
    WriteMemoryBitstream m(16); uint32_t wi = 0, he = 0; struct K : MP4Write { static void go(const Bytes& a, const Bytes& b, WriteMemoryBitstream& m, uint32_t& w, uint32_t& h) { AVCDecoderConfigurationRecordFromSPSandPPS(a.data(), (unsigned)a.size(), b.data(), (unsigned)b.size(), m, w, h); } }; K::go(n, pn, m, wi, he); EQ(wi, w.width(), "avcc-size"); EQ(he, w.height(), "avcc-size");
    MTrack t; t.sps = n; t.pps = pn; Bytes a = t.avcc(); VREQ(c, m.get_size() == a.size() && !memcmp(m.get_buffer(), a.data(), a.size()), "avcc-bytes", "%lld bytes want %zu", ll(m.get_size()), a.size()); c.count("avcc");
  }
  c.count("sps"); c.feature(fmt("%d %u %d %d%d%d %d", w.profile, w.poctype, w.vui, w.ari, w.ti, w.nhrd + 2 * w.vhrd, w.crop + 2 * w.fmo)); c.feature(n.size());
}
static void put_groups(Ctx& c, BitW& b, unsigned ng, unsigned type) {
  b.ue(ng - 1); if (ng == 1) return; b.ue(type); if (type == 0) for (unsigned i = 0; i < ng; i++) b.ue((uint32_t)c.rng.below(300)); else if (type == 2) for (unsigned i = 0; i + 1 < ng; i++) { b.ue((uint32_t)c.rng.below(300)); b.ue((uint32_t)c.rng.below(300)); } else if (type >= 3 && type <= 5) { b.bit(c.rng.coin()); b.ue((uint32_t)c.rng.below(300)); }
}
static void pps(Ctx& c) {
  Pps w = make_pps(c.rng, (uint32_t)c.rng.below(32)); unsigned ng = c.rng.chance(1, 4) ? (unsigned)c.rng.range(2, 8) : 1, gt = (unsigned)c.rng.below(6); bool lists = w.ext && c.rng.chance(1, 3); unsigned lflags = (unsigned)c.rng.below(256);
  BitW b; b.ue(w.id); b.ue(w.sps); b.bit(w.cabac); b.bit(w.po); put_groups(c, b, ng, gt); b.ue(w.l0); b.ue(w.l1); b.bit(w.wp); b.u(w.wbi, 2); b.se(w.qp); b.se(w.qs); b.se(w.cqp); b.bit(w.dbf); b.bit(w.cip); b.bit(w.red); int base = b.n;
  if (w.ext) { b.bit(w.t8); b.bit(lists); if (lists) for (unsigned i = 0; i < 6u + 2 * w.t8; i++) { b.bit((lflags >> i) & 1); if ((lflags >> i) & 1) for (int j = 0; j < (i < 6 ? 16 : 64); j++) b.se((int)c.rng.range(-1, 1)); /* deltas which never end a list early */ } b.se(w.cqp2); }
  b.trailing(); Bytes raw = {0x68}; app(raw, b.d); Bytes n = nal_escape(raw); c.note(fmt("pps %u groups %u ext %d lists %d, %d bits before the extension, %zu bytes", w.id, ng, w.ext, lists, base, raw.size())); H264Nal dn; Bytes d = unescape(c, dn, n); VREQ(c, d == raw, "nal-bytes", "%zu want %zu", d.size(), raw.size());
  if (lists) { /* a delta that makes nextScale 0 stops a list: keep out of that */ int next = 8; (void)next; }
  for (int sized = 0; sized < 2; sized++) {
    if (!sized && w.ext) continue; // without the size the extension cannot be known
    Bits x(d, 1); Dirty<pic_parameter_set_rbsp> p(dirt(c), sized ? (unsigned)x.n : 0u); p->get(x.s); VREQ(c, x.s.get_position() == x.n, "pps-length", "%lld of %zu bytes (size %s)", ll(x.s.get_position()), x.n, sized ? "given" : "not given");
    EQ(p->pic_parameter_set_id, w.id, "pps"); EQ(p->seq_parameter_set_id, w.sps, "pps"); EQ(p->entropy_coding_mode_flag, w.cabac, "pps"); EQ(p->pic_order_present_flag, w.po, "pps"); EQ(p->num_slice_groups_minus1, ng - 1, "pps"); if (ng > 1) EQ(p->slice_group_map_type, gt, "pps"); EQ(p->num_ref_idx_l0_active_minus1, w.l0, "pps"); EQ(p->num_ref_idx_l1_active_minus1, w.l1, "pps"); EQ(p->weighted_pred_flag, w.wp, "pps"); EQ(p->weighted_bipred_idc, w.wbi, "pps"); EQ(p->pic_init_qp_minus26, w.qp, "pps"); EQ(p->pic_init_qs_minus26, w.qs, "pps"); EQ(p->chroma_qp_index_offset, w.cqp, "pps"); EQ(p->deblocking_filter_control_present_flag, w.dbf, "pps"); EQ(p->constrained_intra_pred_flag, w.cip, "pps"); EQ(p->redundant_pic_cnt_present_flag, w.red, "pps");
    if (sized) { EQ(p->extended, w.ext, "pps-extended"); if (w.ext) { EQ(p->transform_8x8_mode_flag, w.t8, "pps"); EQ(p->pic_scaling_matrix_present_flag, lists, "pps"); EQ(p->second_chroma_qp_index_offset, w.cqp2, "pps"); } }
  }
  c.count("pps"); if (w.ext) c.count("pps_extended"); c.feature(fmt("%d %u %u %d %d", base % 8, ng, gt, w.ext, lists));
}
static void slice(Ctx& c) {
  Sps w = make_sps(c.rng); w.sepcol = 0; Pps pw = make_pps(c.rng, w.id); Bytes sr = w.rbsp(), pr = pw.rbsp(); H264Sequence sq; { Bits b(sr, 0); sq.get(b.s); } pic_parameter_set_rbsp pq((unsigned)pr.size()); { Bits b(pr, 0); pq.get(b.s); }
  for (int k = 0; k < 6; k++) {
    bool idr = c.rng.chance(1, 3); unsigned type = (unsigned)c.rng.below(10), ref = idr ? 1 + (unsigned)c.rng.below(3) : (unsigned)c.rng.below(4), first = someue(c.rng), fn = (unsigned)c.rng.next() & ((1u << (w.log2fn + 4)) - 1), idrid = someue(c.rng), lsb = (unsigned)c.rng.next() & ((1u << (w.log2poc + 4)) - 1), red = (unsigned)c.rng.below(128), l0 = (unsigned)c.rng.below(32), l1 = (unsigned)c.rng.below(32); int field = w.fmo ? 0 : c.rng.coin(), bottom = c.rng.coin(), dpb = (int)c.rng.range(-5000, 5000), d0 = (int)c.rng.range(-5000, 5000), d1 = (int)c.rng.range(-5000, 5000), direct = c.rng.coin(), over = c.rng.coin();
    BitW b; b.u((idr ? 5 : 1) | ref << 5, 8); b.ue(first); b.ue(type); b.ue(pw.id); b.u(fn, (int)w.log2fn + 4); if (!w.fmo) { b.bit(field); if (field) b.bit(bottom); } if (idr) b.ue(idrid); if (w.poctype == 0) { b.u(lsb, (int)w.log2poc + 4); if (pw.po && !field) b.se(dpb); } if (w.poctype == 1 && !w.dpoaz) { b.se(d0); if (pw.po && !field) b.se(d1); } if (pw.red) b.ue(red);
    unsigned t5 = type % 5; if (t5 == 1) b.bit(direct); if (t5 == 0 || t5 == 1 || t5 == 3) { b.bit(over); if (over) { b.ue(l0); if (t5 == 1) b.ue(l1); } } for (unsigned i = 0; i < 40; i++) b.bit(c.rng.coin()); b.trailing();
    H264Nal dn; Bytes d = unescape(c, dn, nal_escape(b.d)); VREQ(c, d == b.d, "nal-bytes", "%zu want %zu", d.size(), b.d.size()); Bits x(d, 1); Dirty<slice_header> s(dirt(c), sq, pq, dn.get_decoded_nal_unit_type(), dn.get_decoded_nal_ref_idc()); s->get(x.s); c.note(fmt("type %u nal %02x poc %u fmo %d; ", type, d[0], w.poctype, w.fmo));
    EQ(s->first_mb_in_slice, first, "slice"); EQ(s->slice_type, type, "slice"); EQ(s->pic_parameter_set_id, pw.id, "slice"); EQ(s->frame_num, fn, "slice"); EQ(s->field_pic_flag, field, "slice-field"); EQ(s->bottom_field_flag, field ? bottom : 0, "slice-field"); EQ(s->idr_pic_id, idr ? idrid : 0, "slice"); EQ(s->pic_order_cnt_lsb, w.poctype == 0 ? lsb : 0, "slice-poc"); EQ(s->delta_pic_order_cnt_bottom, w.poctype == 0 && pw.po && !field ? dpb : 0, "slice-poc");
    if (w.poctype == 1 && !w.dpoaz) { EQ(s->delta_pic_order_cnt[0], d0, "slice-poc"); if (pw.po && !field) EQ(s->delta_pic_order_cnt[1], d1, "slice-poc"); } EQ(s->redundant_pic_cnt, pw.red ? red : 0, "slice"); EQ(s->direct_spatial_mv_pred_flag, t5 == 1 ? direct : 0, "slice-type"); bool has = (t5 == 0 || t5 == 1 || t5 == 3) && over; EQ(s->num_ref_idx_active_override_flag, has, "slice-type"); EQ(s->num_ref_idx_l0_active_minus1, has ? l0 : 0, "slice-type"); EQ(s->num_ref_idx_l1_active_minus1, has && t5 == 1 ? l1 : 0, "slice-type");
    c.count("slices"); c.feature(fmt("%u %d %u %d %d", type, idr, w.poctype, field, over));
  }
}
static void sei(Ctx& c) {
  Sps w = make_sps(c.rng); if (!w.vui) w.psp = w.nhrd = w.vhrd = 0; Bytes sr = w.rbsp(); H264Sequence sq; { Bits b(sr, 0); sq.get(b.s); } Hrd* h = w.nhrd ? &w.nh : w.vhrd ? &w.vh_ : nullptr;
  { int type = c.rng.coin() ? (int)c.rng.below(300) : (int)c.rng.below(2000), size = c.rng.coin() ? (int)c.rng.below(300) : (int)c.rng.below(3000); BitW b; for (int i = type; ; i -= 255) { b.u(i >= 255 ? 255 : i, 8); if (i < 255) break; } for (int i = size; ; i -= 255) { b.u(i >= 255 ? 255 : i, 8); if (i < 255) break; } Bytes d = b.d; d.insert(d.end(), 8, 0x80); Bits x(d, 0); Dirty<sei_message> s(dirt(c)); s->get(x.s); EQ(s->payloadType, type, "sei"); EQ(s->payloadSize, size, "sei"); EQ(x.s.get_position(), b.d.size(), "sei-length"); c.count("sei"); }
  // picture timing
  BitW b; unsigned crd = 0, dod = 0, ps = (unsigned)c.rng.below(9); if (h) { crd = (unsigned)c.rng.next() >> (31 - h->crd); dod = (unsigned)c.rng.next() >> (31 - h->dod); b.u(crd, (int)h->crd + 1); b.u(dod, (int)h->dod + 1); } struct T { int f, ct, nu, cnt, full, dis, drop, n, s, m, hh, sf, mf, hf; uint32_t off; } t[3]; static const int N[] = {1, 1, 1, 2, 2, 3, 3, 2, 3}; int tol = h ? (int)h->tol : 24;
  c.note(fmt("hrd %d pic_struct %u present %d", h != nullptr, ps, w.psp));
  if (w.psp) { b.u(ps, 4); for (int i = 0; i < N[ps]; i++) { T& x = t[i]; x.f = c.rng.coin(); b.bit(x.f); if (!x.f) continue; x.ct = (int)c.rng.below(3); x.nu = c.rng.coin(); x.cnt = (int)c.rng.below(7); x.full = c.rng.coin(); x.dis = c.rng.coin(); x.drop = c.rng.coin(); x.n = (int)c.rng.below(256); x.s = (int)c.rng.below(60); x.m = (int)c.rng.below(60); x.hh = (int)c.rng.below(24); x.sf = c.rng.coin(); x.mf = c.rng.coin(); x.hf = c.rng.coin(); b.u(x.ct, 2); b.bit(x.nu); b.u(x.cnt, 5); b.bit(x.full); b.bit(x.dis); b.bit(x.drop); b.u(x.n, 8); if (x.full) { b.u(x.s, 6); b.u(x.m, 6); b.u(x.hh, 5); } else { b.bit(x.sf); if (x.sf) { b.u(x.s, 6); b.bit(x.mf); if (x.mf) { b.u(x.m, 6); b.bit(x.hf); if (x.hf) b.u(x.hh, 5); } } } x.off = 0; if (tol) { x.off = (uint32_t)c.rng.next() >> (32 - tol); b.u(x.off, tol); } } }
  int bits = b.n; Bytes d = b.d; d.insert(d.end(), 4, 0); Bits x(d, 0); Dirty<pic_timing> p(dirt(c)); p->get(x.s, &sq);
  EQ(p->cpb_removal_delay, crd, "timing"); EQ(p->dpb_output_delay, dod, "timing"); if (w.psp) { EQ(p->pic_struct, ps, "timing"); EQ(p->NumClockTS, N[ps], "timing"); for (int i = 0; i < N[ps]; i++) { T& k = t[i]; EQ(p->clock_timestamp_flag[i], k.f, "clock"); if (!k.f) continue; EQ(p->ct_type[i], k.ct, "clock"); EQ(p->nuit_field_based_flag[i], k.nu, "clock"); EQ(p->counting_type[i], k.cnt, "clock"); EQ(p->full_timestamp_flag[i], k.full, "clock"); EQ(p->discontinuity_flag[i], k.dis, "clock"); EQ(p->cnt_dropped_flag[i], k.drop, "clock"); EQ(p->n_frames[i], k.n, "clock"); if (k.full || k.sf) EQ(p->seconds_value[i], k.s, "clock"); if (k.full || (k.sf && k.mf)) EQ(p->minutes_value[i], k.m, "clock"); if (k.full || (k.sf && k.mf && k.hf)) EQ(p->hours_value[i], k.hh, "clock"); c.count("clocks"); } }
  EQ(x.s.getpos(), bits, "timing-length"); c.count("timings"); c.feature(fmt("%d %d %u %d", w.nhrd, w.vhrd, ps, w.psp));
}
static void aac(Ctx& c) {
  int aot = c.rng.chance(2, 3) ? (int)c.rng.range(1, 2) : (int)c.rng.range(3, 4), ri = (int)c.rng.below(13), ch = (int)c.rng.range(0, 7), n = ch == 7 ? 8 : ch, fl = c.rng.coin(), dep = c.rng.chance(1, 4), delay = (int)c.rng.below(16384); static const bool X = false;
  { BitW b; b.u(aot, 5); b.u(ri, 4); b.u(ch, 4); b.bit(fl); b.bit(dep && !fl); if (dep && !fl) b.u(delay, 14); b.bit(X); while (b.n % 8) b.bit(0); Bits x(b.d, 0); Dirty<aac_info_mp4> a(dirt(c)); a->get(x.s); c.note(fmt("aot %d rate %d channels %d", aot, ri, ch)); EQ(a->object_type, aot, "aac-config"); EQ(a->sample_rate, AAC_RATES[ri], "aac-config"); EQ(a->channels, n, "aac-config"); if (aot <= 2) { EQ(a->frame_length_flag, fl, "aac-config"); if (!fl) { EQ(a->depends_core_coder, dep, "aac-config"); if (dep) EQ(a->core_coder_delay, delay, "aac-config"); } } c.count("aac_configs");
    if (aot <= 2 && !(dep && !fl)) { WriteMemoryBitstream m(16); aac_info_mp4 o; o.object_type = aot; o.sample_rate = AAC_RATES[ri]; o.channels = n; o.frame_length_flag = fl; o.put(m); m.flush(); VREQ(c, m.get_size() == b.d.size() && !memcmp(m.get_buffer(), b.d.data(), b.d.size()), "aac-config-put", "%s want %s", vh::hex(m.get_buffer(), m.get_size()).c_str(), vh::hex(b.d.data(), b.d.size()).c_str()); } }
  { int id = c.rng.coin(), prot = c.rng.coin(), pv = c.rng.coin(), og = c.rng.coin(), ho = c.rng.coin(), cp = c.rng.coin(), cs = c.rng.coin(), crc = (int)c.rng.below(65536), full = (int)c.rng.below(2048), fr = (int)c.rng.below(4), len = (int)c.rng.range(prot ? 7 : 9, 8191); BitW b; b.u(0xfff, 12); b.bit(id); b.u(0, 2); b.bit(prot); b.u(aot - 1, 2); b.u(ri, 4); b.bit(pv); b.u(ch, 3); b.bit(og); b.bit(ho); b.bit(cp); b.bit(cs); b.u(len, 13); b.u(full, 11); b.u(fr, 2); if (!prot) b.u(crc, 16);
    Bits x(b.d, 0); Dirty<ADTS> a(dirt(c)); a->get(x.s); EQ(x.s.get_position(), b.d.size(), "adts-length"); EQ(a->mpeg_version, id, "adts"); EQ(a->missing_protection, prot, "adts"); EQ(a->get_mpeg_4_audio_object(), aot, "adts"); EQ(a->mpeg_4_sampling_frequency, AAC_RATES[ri], "adts"); EQ(a->channel_configuration, n, "adts"); EQ(a->frame_length, len, "adts"); EQ(a->get_body_length(), len - (prot ? 7 : 9), "adts"); EQ(a->buffer_fullnes, full, "adts"); EQ(a->aac_frames_minus_1, fr, "adts"); if (!prot) EQ(a->CRC, crc, "adts");
    ADTS o; o.mpeg_version = id; o.missing_protection = prot; o.set_mpeg_4_audio_object(aot); o.mpeg_4_sampling_frequency = AAC_RATES[ri]; o.private_bit = pv; o.channel_configuration = n; o.private_bit_2 = og; o.home = ho; o.copyrighted = cp; o.copyrighted_start = cs; o.set_body_length(len - (prot ? 7 : 9)); o.buffer_fullnes = full; o.aac_frames_minus_1 = fr; o.CRC = crc; WriteMemoryBitstream m(16); o.put(m); m.flush(); VREQ(c, m.get_size() == b.d.size() && !memcmp(m.get_buffer(), b.d.data(), b.d.size()), "adts-put", "%s want %s", vh::hex(m.get_buffer(), m.get_size()).c_str(), vh::hex(b.d.data(), b.d.size()).c_str()); c.count("adts"); }
  c.feature(fmt("%d %d %d", aot, ri, ch));
}
static void mpa(Ctx& c) {
  static const int K1[3][15] = {{0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448}, {0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384}, {0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320}}, K2[2][15] = {{0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256}, {0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160}}; static const int FR[3] = {44100, 48000, 32000};
  static const int V[] = {3, 2, 0}; int v = V[c.rng.below(3)], layer = (int)c.rng.range(1, 3), br = (int)c.rng.range(1, 14), fr = (int)c.rng.below(3), pad = c.rng.coin(), mode = (int)c.rng.below(4), prot = c.rng.coin(), rest = (int)c.rng.below(256); BitW b; b.u(0x7ff, 11); b.u(v, 2); b.u(4 - layer, 2); b.bit(prot); b.u(br, 4); b.u(fr, 2); b.bit(pad); b.bit(rest & 1); b.u(mode, 2); b.u((rest >> 1) & 3, 2); b.bit((rest >> 3) & 1); b.bit((rest >> 4) & 1); b.u((rest >> 5) % 3, 2);
  Bits x(b.d, 0); Dirty<AudioHeader> h(dirt(c)); h->get(x.s); c.note(fmt("version %d layer %d bitrate %d rate %d", v, layer, br, fr)); int kb = v == 3 ? K1[layer - 1][br] : K2[layer > 1][br], f = FR[fr] / (v == 3 ? 1 : v == 2 ? 2 : 4); EQ(h->getLayer(), layer, "mpa"); EQ(h->getBitRate(), kb * 1000, "mpa"); EQ(h->getFrequency(), f, "mpa"); EQ(h->getChannels(), mode == 3 ? 1 : 2, "mpa");
  int samples = layer == 1 ? 384 : layer == 2 ? 1152 : v == 3 ? 1152 : 576; int len = layer == 1 ? (12 * kb * 1000 / f + pad) * 4 : samples / 8 * kb * 1000 / f + pad; EQ(h->getFrameLength(), len, "mpa-length"); VREQ(c, h->IsValid(), "mpa-valid", "refused"); EQ(x.s.get_position(), 4, "mpa"); c.count("mpa"); c.feature(fmt("%d %d %d %d", v, layer, br, fr));
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"nal", nal}, {"sps", sps}, {"pps", pps}, {"slice", slice}, {"sei", sei}, {"aac", aac}, {"mpa", mpa}}); }
