// The audio file source against a simulated FFmpeg (declarations: stubs/ffmpeg): exactly-once delivery, ends, failures, leaks (C35).
#include "vmon.hpp"
#include "cler.hpp"
#include "sources/source_audio_file.hpp"
extern "C" {
#include <libavutil/channel_layout.h>
}
#include <deque>
#include <map>
#include <memory>
#include <cmath>
using vmon::Rng; using std::string; using std::vector;
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// ---------------- the simulated library. Decoder: one packet may hold many frames, frames may come out late; a packet is
// refused (EAGAIN) while an earlier one waits; a null packet starts draining. Resampler: input that finds no room in the
// output is kept; output needs some input beyond it until the resampler is flushed.
namespace ff {
struct Pkt { bool audio = true; vector<int> frames; bool corrupt = false; };
struct File { vector<Pkt> pkts; int rate = 48000, nch = 1, delay = 0; AVSampleFormat fmt = AV_SAMPLE_FMT_FLT; int layout = 0 /* 0 usual for the number of channels, 1 unspecified, 2 another, 3 custom */; int seek_err = AVERROR(EIO); bool seekable = true, has_audio = true, known_codec = true; int audio_idx = 0; long read_err_at = -1, seek_err_after = -1, swr_err_at = -1; };
static File file; static bool exists = true;
static long calls = 0, fail_at = 0; static string failed; static long reads = 0, seeks = 0, converts = 0, live_fmt = 0, live_dec = 0, live_swr = 0, live_frm = 0, live_buf = 0, live_pkt = 0, live_lay = 0;
static long decoded = 0; // samples the decoder has handed out
static bool fail(const char* what) { if (++calls == fail_at) { failed = what; return true; } return false; }
static int code(const char* what) { return fail(what) ? AVERROR(ENOMEM) : 0; }
static double mono(long n) { return file.fmt == AV_SAMPLE_FMT_S16 || file.fmt == AV_SAMPLE_FMT_S16P ? ((n % 20011) - 10000) / 32768.0 : (double)n; }
struct Fmt { size_t pos = 0; long sample = 0; vector<AVStream> st; vector<AVStream*> ptr; vector<AVCodecParameters> par; vector<long> first; };
struct Frame { long first; int n; };
struct Dec { std::deque<Frame> in, late; bool has_pkt = false, has_frm = false, draining = false, open = false; int pkt = 0; Frame frm{0, 0}; };
}
struct SwrContext { bool other = false; bool init = false, flushed = false; int ofmt, ifmt, orate, irate, ich, och; std::deque<float> buf; long base = 0, out = 0, in = 0; };
using namespace ff;
static AVCodec CODEC = {"stub", "stub", AVMEDIA_TYPE_AUDIO, AV_CODEC_ID_STUB};
static vector<long> FIRST; // number of the first sample of each packet
extern "C" {
int av_strerror(int err, char* b, size_t n) { snprintf(b, n, "stub error %d", err); return 0; }
void av_log_set_level(int) {}
void* av_malloc(size_t n) { return malloc(n); } void* av_mallocz(size_t n) { return calloc(1, n); } void av_free(void* p) { free(p); } void av_freep(void* p) { void** q = (void**)p; free(*q); *q = nullptr; }
int64_t av_rescale_rnd(int64_t a, int64_t b, int64_t c, enum AVRounding r) { __int128 x = (__int128)a * b; __int128 q = x / c, m = x % c; if (m && (r == AV_ROUND_UP || r == AV_ROUND_INF)) q++; else if (r == AV_ROUND_NEAR_INF && m * 2 >= c) q++; return (int64_t)q; }
int64_t av_rescale(int64_t a, int64_t b, int64_t c) { return av_rescale_rnd(a, b, c, AV_ROUND_NEAR_INF); }
int av_get_bytes_per_sample(enum AVSampleFormat f) { return f == AV_SAMPLE_FMT_S16 || f == AV_SAMPLE_FMT_S16P ? 2 : f == AV_SAMPLE_FMT_U8 || f == AV_SAMPLE_FMT_U8P ? 1 : f == AV_SAMPLE_FMT_DBL || f == AV_SAMPLE_FMT_DBLP ? 8 : 4; }
int av_sample_fmt_is_planar(enum AVSampleFormat f) { return f >= AV_SAMPLE_FMT_U8P; }
int av_get_channel_layout_nb_channels(uint64_t m) { return __builtin_popcountll(m); }
int64_t av_get_default_channel_layout(int n) { return n == 1 ? AV_CH_LAYOUT_MONO : n == 2 ? AV_CH_LAYOUT_STEREO : n == 6 ? AV_CH_LAYOUT_5POINT1 : (int64_t)((1ull << n) - 1); }
void av_channel_layout_default(AVChannelLayout* l, int n) { memset(l, 0, sizeof *l); l->order = AV_CHANNEL_ORDER_NATIVE; l->nb_channels = n; l->u.mask = av_get_default_channel_layout(n); }
void av_channel_layout_uninit(AVChannelLayout* l) { if (l->order == AV_CHANNEL_ORDER_CUSTOM) { free(l->u.map); live_lay--; } memset(l, 0, sizeof *l); }
static void* newmap() { live_lay++; return malloc(8 * (size_t)file.nch); }
int av_channel_layout_copy(AVChannelLayout* d, const AVChannelLayout* s) { av_channel_layout_uninit(d); if (s->order == AV_CHANNEL_ORDER_CUSTOM) { if (fail("av_channel_layout_copy")) return AVERROR(ENOMEM); *d = *s; d->u.map = newmap(); memcpy(d->u.map, s->u.map, 8 * (size_t)s->nb_channels); } else *d = *s; return 0; }
// the layout written in the file
static uint64_t other_mask() { return (((1ull << file.nch) - 1) << 5); }
static void file_layout(AVChannelLayout* l, uint64_t* m) { av_channel_layout_default(l, file.nch); if (file.layout == 1) { l->order = AV_CHANNEL_ORDER_UNSPEC; l->u.mask = 0; } else if (file.layout == 2) l->u.mask = other_mask(); else if (file.layout == 3) { l->order = AV_CHANNEL_ORDER_CUSTOM; l->u.map = newmap(); memset(l->u.map, 7, 8 * (size_t)file.nch); } *m = file.layout == 2 ? other_mask() : file.layout == 0 ? l->u.mask : 0; }
int av_channel_layout_from_mask(AVChannelLayout* l, uint64_t m) { if (!m) return AVERROR(EINVAL); memset(l, 0, sizeof *l); l->order = AV_CHANNEL_ORDER_NATIVE; l->u.mask = m; l->nb_channels = __builtin_popcountll(m); return 0; }
int av_channel_layout_compare(const AVChannelLayout* a, const AVChannelLayout* b) { return a->nb_channels != b->nb_channels || (a->order == b->order && a->u.mask != b->u.mask); }
int av_channel_layout_check(const AVChannelLayout* l) { return l->nb_channels > 0; }

int avformat_open_input(AVFormatContext** ps, const char*, const AVInputFormat*, AVDictionary**) {
    if (fail("avformat_open_input") || !exists) { if (*ps) { avformat_free_context(*ps); *ps = nullptr; } return AVERROR(ENOENT); }
    AVFormatContext* c = *ps ? *ps : (AVFormatContext*)calloc(1, sizeof *c); Fmt* f = new Fmt; live_fmt++; const int n = file.audio_idx + 2; f->st.resize(n); f->par.resize(n);
    for (int i = 0; i < n; ++i) { memset(&f->st[i], 0, sizeof f->st[i]); memset(&f->par[i], 0, sizeof f->par[i]); f->st[i].index = i; f->st[i].codecpar = &f->par[i]; bool a = file.has_audio && i == file.audio_idx; f->par[i].codec_type = a ? AVMEDIA_TYPE_AUDIO : AVMEDIA_TYPE_VIDEO; f->par[i].codec_id = a && file.known_codec ? AV_CODEC_ID_STUB : AV_CODEC_ID_NONE; f->st[i].time_base = {1, file.rate}; if (a) { f->par[i].format = file.fmt; f->par[i].channels = file.nch; f->par[i].sample_rate = file.rate; file_layout(&f->par[i].ch_layout, &f->par[i].channel_layout); } f->ptr.push_back(&f->st[i]); }
    c->nb_streams = n; c->streams = f->ptr.data(); c->stub = f; *ps = c; reads = seeks = converts = 0; return 0; }
void avformat_free_context(AVFormatContext* c) { if (!c) return; if (c->stub) { for (auto& p : ((Fmt*)c->stub)->par) av_channel_layout_uninit(&p.ch_layout); delete (Fmt*)c->stub; live_fmt--; } free(c); }
void avformat_close_input(AVFormatContext** c) { if (*c) avformat_free_context(*c); *c = nullptr; }
int avformat_find_stream_info(AVFormatContext*, AVDictionary**) { return code("avformat_find_stream_info"); }
int av_find_best_stream(AVFormatContext*, enum AVMediaType t, int, int, const AVCodec** dec, int) { if (fail("av_find_best_stream")) return AVERROR_STREAM_NOT_FOUND; if (t != AVMEDIA_TYPE_AUDIO || !file.has_audio) return AVERROR_STREAM_NOT_FOUND; if (dec) { *dec = file.known_codec ? &CODEC : nullptr; if (!*dec) return AVERROR_DECODER_NOT_FOUND; } return file.audio_idx; }
int av_read_frame(AVFormatContext* c, AVPacket* p) { Fmt* f = (Fmt*)c->stub; if (file.read_err_at >= 0 && reads >= file.read_err_at) return AVERROR(EIO); reads++; if (f->pos >= file.pkts.size()) { memset(p, 0, sizeof *p); return AVERROR_EOF; }
    if (p->data) bad("audio:packet", "av_read_frame into a packet that still holds data"); memset(p, 0, sizeof *p); p->data = (uint8_t*)malloc(8); int i = (int)f->pos++; memcpy(p->data, &i, 4); p->size = 8; p->stream_index = file.pkts[i].audio ? file.audio_idx : file.audio_idx && i % 2 ? 0 : file.audio_idx + 1; p->pts = p->dts = i; live_buf++; return 0; }
int av_seek_frame(AVFormatContext* c, int, int64_t ts, int) { if (!file.seekable || (file.seek_err_after >= 0 && seeks >= file.seek_err_after)) return file.seek_err; seeks++; if (ts > 0) return AVERROR(EINVAL); ((Fmt*)c->stub)->pos = 0; return 0; }
int avformat_seek_file(AVFormatContext* c, int s, int64_t mn, int64_t ts, int64_t, int f) { return av_seek_frame(c, s, mn > 0 ? mn : ts > 0 && mn <= 0 ? 0 : ts, f); }
AVPacket* av_packet_alloc(void) { if (fail("av_packet_alloc")) return nullptr; live_pkt++; return (AVPacket*)calloc(1, sizeof(AVPacket)); }
void av_packet_unref(AVPacket* p) { if (p->data) { free(p->data); live_buf--; } memset(p, 0, sizeof *p); } void av_init_packet(AVPacket* p) { p->pts = p->dts = AV_NOPTS_VALUE; }
void av_packet_free(AVPacket** p) { if (!*p) return; av_packet_unref(*p); free(*p); live_pkt--; *p = nullptr; }
int av_packet_ref(AVPacket* d, const AVPacket* s) { *d = *s; if (s->data) { d->data = (uint8_t*)malloc(8); memcpy(d->data, s->data, 8); live_buf++; } return 0; } void av_packet_move_ref(AVPacket* d, AVPacket* s) { *d = *s; memset(s, 0, sizeof *s); }

const AVCodec* avcodec_find_decoder(enum AVCodecID id) { return fail("avcodec_find_decoder") || id != AV_CODEC_ID_STUB ? nullptr : &CODEC; }
AVCodecContext* avcodec_alloc_context3(const AVCodec* c) { if (fail("avcodec_alloc_context3")) return nullptr; AVCodecContext* x = (AVCodecContext*)calloc(1, sizeof *x); x->codec = c; x->sample_fmt = AV_SAMPLE_FMT_NONE; x->stub = new Dec; live_dec++; return x; }
void avcodec_free_context(AVCodecContext** c) { if (!*c) return; delete (Dec*)(*c)->stub; av_channel_layout_uninit(&(*c)->ch_layout); free(*c); live_dec--; *c = nullptr; } int avcodec_close(AVCodecContext*) { return 0; }
int avcodec_parameters_to_context(AVCodecContext* c, const AVCodecParameters* p) { if (fail("avcodec_parameters_to_context")) return AVERROR(ENOMEM); c->sample_fmt = (AVSampleFormat)p->format; c->sample_rate = p->sample_rate; c->channels = p->channels; c->channel_layout = p->channel_layout; return av_channel_layout_copy(&c->ch_layout, &p->ch_layout); }
int avcodec_open2(AVCodecContext* c, const AVCodec*, AVDictionary**) { if (fail("avcodec_open2")) return AVERROR(ENOMEM); ((Dec*)c->stub)->open = true; return 0; }
static int step(Dec& d, Frame& f) { for (;;) { if (d.in.empty()) { if (d.has_pkt) { d.has_pkt = false; const Pkt& p = file.pkts[d.pkt]; if (p.corrupt) return AVERROR_INVALIDDATA; long s = FIRST[d.pkt]; for (int n : p.frames) { d.in.push_back({s, n}); s += n; } if (!p.frames.empty()) continue; return AVERROR(EAGAIN); } if (d.draining) { if (d.late.empty()) return AVERROR_EOF; f = d.late.front(); d.late.pop_front(); return 0; } return AVERROR(EAGAIN); }
    d.late.push_back(d.in.front()); d.in.pop_front(); if ((int)d.late.size() > file.delay) { f = d.late.front(); d.late.pop_front(); return 0; } } }
int avcodec_send_packet(AVCodecContext* c, const AVPacket* p) { Dec& d = *(Dec*)c->stub; if (!d.open) return AVERROR(EINVAL); if (d.draining) return AVERROR_EOF; if (p && !p->size && p->data) return AVERROR(EINVAL); if (d.has_pkt) return AVERROR(EAGAIN); if (!p || !p->size) d.draining = true; else { int i; memcpy(&i, p->data, 4); if (!file.pkts[i].audio) bad("audio:stream", "a packet of another stream goes to the audio decoder"); d.has_pkt = true; d.pkt = i; } if (!d.has_frm) { int r = step(d, d.frm); if (r == 0) d.has_frm = true; else if (r != AVERROR(EAGAIN) && r != AVERROR_EOF) return r; } return 0; }
void avcodec_flush_buffers(AVCodecContext* c) { Dec& d = *(Dec*)c->stub; d.in.clear(); d.late.clear(); d.has_pkt = d.has_frm = d.draining = false; }
AVFrame* av_frame_alloc(void) { if (fail("av_frame_alloc")) return nullptr; live_frm++; AVFrame* f = (AVFrame*)calloc(1, sizeof *f); f->extended_data = f->data; f->format = -1; return f; }
void av_frame_unref(AVFrame* f) { if (f->stub) { free(f->stub); live_buf--; } memset(f, 0, sizeof *f); f->extended_data = f->data; f->format = -1; } void av_frame_free(AVFrame** f) { if (!*f) return; av_frame_unref(*f); free(*f); live_frm--; *f = nullptr; }
int avcodec_receive_frame(AVCodecContext* c, AVFrame* f) { Dec& d = *(Dec*)c->stub; av_frame_unref(f); Frame x; if (d.has_frm) { x = d.frm; d.has_frm = false; } else { int r = step(d, x); if (r) return r; }
    const int B = av_get_bytes_per_sample(file.fmt), n = x.n, ch = file.nch; const bool pl = av_sample_fmt_is_planar(file.fmt); uint8_t* m = (uint8_t*)malloc((size_t)B * ch * n + 1); live_buf++; f->stub = m; f->nb_samples = n; f->format = file.fmt; f->sample_rate = file.rate; f->channels = ch; av_channel_layout_default(&f->ch_layout, ch); f->channel_layout = f->ch_layout.u.mask; for (int k = 0; k < (pl ? ch : 1); ++k) { f->data[k] = m + (size_t)k * n * B; } f->linesize[0] = pl ? n * B : n * B * ch;
    for (int i = 0; i < n; ++i) for (int k = 0; k < ch; ++k) { const int off = 2 * k - (ch - 1); uint8_t* q = pl ? f->data[k] + (size_t)i * B : m + ((size_t)i * ch + k) * B; const long id = x.first + i; if (B == 2) { int16_t v = (int16_t)((id % 20011) - 10000 + off); memcpy(q, &v, 2); } else { float v = (float)(id + off); memcpy(q, &v, 4); } }
    decoded += n; return 0; }

SwrContext* swr_alloc(void) { if (fail("swr_alloc")) return nullptr; live_swr++; return new SwrContext; }
void swr_free(SwrContext** s) { if (!*s) return; delete *s; live_swr--; *s = nullptr; } void swr_close(SwrContext* s) { s->init = false; }
static int swr_set(SwrContext** ps, int och, int ofmt, int orate, int ich, int ifmt, int irate) { if (!*ps) { *ps = swr_alloc(); if (!*ps) return AVERROR(ENOMEM); } (*ps)->och = och; (*ps)->ofmt = ofmt; (*ps)->orate = orate; (*ps)->ich = ich; (*ps)->ifmt = ifmt; (*ps)->irate = irate; return 0; }
SwrContext* swr_alloc_set_opts(SwrContext* s, int64_t ol, enum AVSampleFormat of, int orate, int64_t il, enum AVSampleFormat fi, int ir, int, void*) { if (swr_set(&s, __builtin_popcountll(ol), of, orate, __builtin_popcountll(il), fi, ir)) return nullptr; s->other = file.layout == 2 && (uint64_t)il != other_mask(); return s; }
int swr_alloc_set_opts2(SwrContext** s, const AVChannelLayout* ol, enum AVSampleFormat of, int orate, const AVChannelLayout* il, enum AVSampleFormat fi, int ir, int, void*) { int e = swr_set(s, ol->nb_channels, of, orate, il->nb_channels, fi, ir); if (!e) (*s)->other = (file.layout == 2 && (il->order != AV_CHANNEL_ORDER_NATIVE || il->u.mask != other_mask())) || (file.layout == 3 && il->order != AV_CHANNEL_ORDER_CUSTOM); return e; }
int swr_init(SwrContext* s) { if (fail("swr_init")) return AVERROR(EINVAL); if (s->orate <= 0 || s->irate <= 0 || s->ich < 1 || s->och != 1 || s->ofmt != AV_SAMPLE_FMT_FLT || s->ifmt < 0) return AVERROR(EINVAL); s->init = true; s->flushed = false; s->buf.clear(); s->base = s->out = s->in = 0; return 0; }
int swr_is_initialized(SwrContext* s) { return s->init; }
static long ready(SwrContext* s, long in) { const long look = s->orate == s->irate || s->flushed ? 0 : 16; long lim = in - look; if (lim <= 0) return 0; return (long)(((__int128)lim * s->orate + s->irate - 1) / s->irate); }
int swr_convert(SwrContext* s, uint8_t** out, int oc, const uint8_t** in, int ic) {
    if (!s->init) return AVERROR(EINVAL); converts++; if (s->other) { bad("audio:layout", "the channels are mixed as if they were placed otherwise than the file says"); s->other = false; } if (file.swr_err_at >= 0 && converts > file.swr_err_at) return AVERROR(EINVAL); if (oc < 0 || ic < 0) { bad("audio:swr", "swr_convert with counts %d, %d", oc, ic); return AVERROR(EINVAL); }
    if (in && ic > 0) { if (s->flushed) for (int i = 0; i < 16; ++i) { s->buf.push_back(NAN); s->in++; } const bool pl = av_sample_fmt_is_planar((AVSampleFormat)s->ifmt); const int B = av_get_bytes_per_sample((AVSampleFormat)s->ifmt);
        for (int i = 0; i < ic; ++i) { double a = 0; for (int k = 0; k < s->ich; ++k) { const uint8_t* q = pl ? in[k] + (size_t)i * B : in[0] + ((size_t)i * s->ich + k) * B; if (B == 2) { int16_t v; memcpy(&v, q, 2); a += v / 32768.0; } else { float v; memcpy(&v, q, 4); a += v; } } s->buf.push_back((float)(a / s->ich)); s->in++; } }
    else if (!in) s->flushed = true;
    long n = std::min<long>(out ? oc : 0, std::max<long>(0, ready(s, s->in) - s->out));
    for (long i = 0; i < n; ++i) { long pos = (long)((__int128)(s->out) * s->irate / s->orate); while (s->base < pos) { s->buf.pop_front(); s->base++; } float v = s->buf.front(); memcpy(out[0] + i * 4, &v, 4); s->out++; }
    { long pos = (long)((__int128)(s->out) * s->irate / s->orate); while (s->base < pos && !s->buf.empty()) { s->buf.pop_front(); s->base++; } }
    return (int)n; }
int swr_get_out_samples(SwrContext* s, int in) { if (!s->init) return AVERROR(EINVAL); return (int)std::max<long>(0, (long)(((__int128)(s->in + in) * s->orate + s->irate - 1) / s->irate) - s->out + 3); }
int64_t swr_get_delay(SwrContext* s, int64_t base) { if (!s->init) return 0; return (int64_t)((__int128)(s->in - s->base) * base / s->irate); }
}

// ---------------- workloads
static int eofs; static const char* eof_name; static const char* NAME = "music.stub";
static void on_end(const char* n) { eofs++; eof_name = n; }
static long total() { long n = 0; FIRST.clear(); for (auto& p : file.pkts) { FIRST.push_back(n); if (p.audio && !p.corrupt) for (int k : p.frames) n += k; } return n; }
static long outputs(long n, int in, int out) { return (long)(((__int128)n * out + in - 1) / in); }
static void draw(Rng& r, bool big = false) {
    file = File(); exists = true; fail_at = 0; failed.clear(); calls = 0; decoded = 0; eofs = 0; eof_name = nullptr; file.nch = r.pick({1, 1, 2, 2, 6, 3}); file.fmt = r.pick({AV_SAMPLE_FMT_FLT, AV_SAMPLE_FMT_FLTP, AV_SAMPLE_FMT_S16, AV_SAMPLE_FMT_S16P}); file.rate = r.pick({48000, 44100, 8000, 96000, 22050, 48000}); file.delay = r.chance(1, 2) ? 0 : (int)r.range(1, 4); file.audio_idx = (int)r.range(0, 1); file.layout = r.pick({0, 0, 0, 1, 2, 3}); if (LIBAVCODEC_VERSION_MAJOR < 59 && file.layout == 3) file.layout = 1; file.seek_err = r.pick({AVERROR(EIO), -1, AVERROR(EINVAL)});
    const int np = r.chance(1, 10) ? 0 : (int)r.range(1, big ? 120 : 40), multi = r.pick({1, 1, 1, 2, 5}), len = r.pick({1, 7, 64, 1152, 1024, 3000}); for (int i = 0; i < np; ++i) { Pkt p; p.audio = !r.chance(1, 6); if (p.audio) { int nf = multi == 1 ? (r.chance(1, 12) ? 0 : 1) : (int)r.range(0, multi); for (int k = 0; k < nf; ++k) p.frames.push_back(r.chance(1, 3) ? (int)r.range(1, len) : len); } file.pkts.push_back(p); } }
static void describe(int orate, bool rep, size_t cap) { CTX = vmon::fmt("%zu packets, %ld samples at %d Hz, %d channels, format %d, decoder delay %d, to %d Hz, repeat %d, channel of %zu", file.pkts.size(), total(), file.rate, file.nch, (int)file.fmt, file.delay, orate, rep, cap); }
static void released(const char* when) { if (live_fmt || live_dec || live_swr || live_frm || live_buf || live_pkt || live_lay) bad("audio:leak", "%s: left %ld format, %ld codec, %ld resampler contexts, %ld frames, %ld packets, %ld buffers, %ld channel layouts", when, live_fmt, live_dec, live_swr, live_frm, live_pkt, live_buf, live_lay); live_fmt = live_dec = live_swr = live_frm = live_buf = live_pkt = live_lay = 0; }
typedef SourceAudioFileBlock<float> Src;

static void deliver(uint64_t, Rng& r) {
    draw(r, true); const int orate = r.chance(1, 2) ? file.rate : r.pick({48000, 44100, 16000, 8000}); const bool rep = r.chance(1, 3); const size_t cap = r.pick({1024, 1500, 4096, 20000}); describe(orate, rep, cap); const long N = total(); if (rep && N == 0) { vmon::stat("empty_repeating", 1); }
    const bool cb = r.chance(3, 4); uint64_t sig = vmon::mix(file.pkts.size(), N + orate);
    { auto S = std::make_unique<Src>("src", NAME, orate, rep, cb ? on_end : nullptr); cler::Channel<float> ch(cap); cler::ChannelBase<float>* out = &ch; const size_t C = ch.space(); vector<float> got(C + 1); long have = 0, idle = 0, calls_ = 0; const long per = outputs(N, file.rate, orate), want = rep ? (N ? 3 * std::max(per, 1L) + 10 : 0) : per; long maxpkt = 0; for (auto& p : file.pkts) { long s = 0; for (int k : p.frames) s += k; maxpkt = std::max(maxpkt, s); } const long bound = outputs(maxpkt * 3 + 64, file.rate, orate) + 64; long backlog = 0; int style = (int)r.range(0, 2); bool stop = false;
      // a repeating file may continue its resampling across the seam or start it afresh
      bool alive[2] = {true, true}; auto value = [&](long k, int way) -> float { long n; if (!rep || way == 0) n = (long)((__int128)k * file.rate / orate) % std::max(N, 1L); else n = (long)((__int128)(k % per) * file.rate / orate); return (float)mono(n); };
      const long limit = 200000; int after = 0;
      while (!stop && ++calls_ < limit) {
          const size_t before = ch.size(); const bool room = ch.space() > 0; vmon::tick(); auto x = S->procedure(out); const size_t n = ch.size() - before; vmon::stat("calls", 1);
          if (x.is_err() && cler::is_fatal(x.unwrap_err()) && !(have + (long)ch.size() >= want && !rep) && !(rep && !N)) { bad("audio:fatal", "procedure answers '%s' after %ld of %ld samples", cler::to_str(x.unwrap_err()), have + (long)ch.size(), want); break; }
          if (!room && (x.is_ok() || x.unwrap_err() != cler::Error::NotEnoughSpace) && !n) { /* any answer will do when nothing can be done */ }
          backlog = std::max(backlog, outputs(decoded, file.rate, orate) - have - (long)ch.size()); if (backlog > bound) { bad("audio:backlog", "%ld samples are decoded but not delivered (a packet has %ld): memory grows as long as the output is slower than the decoder", backlog, maxpkt); break; }
          if (eofs && !rep && have + (long)ch.size() < want) { bad("audio:early-end", "the end of the file is reported after %ld of %ld samples", have + (long)ch.size(), want); break; }
          if (n == 0 && room) { if (++idle > (long)file.pkts.size() + 50 && !(rep && !N) && have + (long)ch.size() < want) { bad("audio:stall", "nothing comes any more after %ld of %ld samples", have + (long)ch.size(), want); break; } } else if (n) idle = 0;
          size_t take = style == 0 ? ch.size() : style == 1 ? (size_t)r.range(0, (int64_t)std::min<size_t>(ch.size(), 40)) : (size_t)r.range(0, (int64_t)ch.size()); if (style == 1 && r.chance(1, 20)) take = ch.size(); take = ch.readN(got.data(), take);
          for (size_t i = 0; i < take; ++i) { long k = have + (long)i; if (!rep && k >= want) { bad("audio:extra", "sample %ld, but the file ends after %ld", k, want); stop = true; break; } bool any = false; for (int w = 0; w < 2; ++w) { if (alive[w] && !(N && got[i] == value(k, w))) alive[w] = false; any |= alive[w]; } if (!any) { bad("audio:samples", "sample %ld is %.9g, should be %.9g", k, got[i], value(k, 0)); stop = true; break; } }
          have += (long)take; vmon::stat("samples", take); sig = vmon::mix(sig, take); if (rep && N && have >= want) break; if (rep && !N && calls_ > 3) break;
          if (!rep && have >= want && !ch.size()) { if (eofs || !cb) after++; else if (++idle > 60) { bad("audio:no-end", "the end of the file is never reported"); break; } if (after > 6) break; } }
      if (calls_ >= limit) { vmon::stat("cut_short", 1); }
      if (!rep && !stop && cb && eofs > 1) bad("audio:end-twice", "the end of the file is reported %d times", eofs); if (rep && N && eofs) bad("audio:end-repeat", "the end of a repeating file is reported"); if (eofs && eof_name != NAME && (!eof_name || strcmp(eof_name, NAME))) bad("audio:name", "the end is reported for '%s'", eof_name ? eof_name : "(null)");
      vmon::statmax("backlog", backlog); if (have >= want) vmon::nontrivial(sig); }
    released("after destruction"); vmon::evals(1);
}
static void faults(uint64_t, Rng& r) { // any call of the constructor fails
    draw(r); int orate = r.pick({48000, 44100}); describe(orate, true, 1024); int what = (int)r.range(0, 4); if (what == 0) exists = false; if (what == 1) file.has_audio = false; if (what == 2) file.known_codec = false; if (what == 3) orate = 0; const string base = CTX;
    if (what < 4) { CTX = base + vmon::fmt(" (%s)", what == 0 ? "no such file" : what == 1 ? "no audio in it" : what == 2 ? "unknown codec" : "rate 0"); bool thrown = false; try { Src S("s", NAME, orate, true, nullptr); } catch (const std::exception&) { thrown = true; } if (!thrown) bad("audio:accepts", "construction succeeds"); released("after a refused construction"); vmon::stat("refusals", 1); }
    exists = true; file.has_audio = file.known_codec = true; if (!orate) orate = 48000;
    for (long k = 1; k < 40; ++k) { calls = 0; fail_at = k; failed.clear(); CTX = base; bool thrown = false; try { Src S("s", NAME, orate, true, nullptr); } catch (const std::exception&) { thrown = true; } fail_at = 0; if (failed.empty()) { if (thrown) bad("audio:refuses", "construction of a good source fails"); released("after construction and destruction"); break; } CTX = base + " with failing " + failed; if (!thrown) bad("audio:accepts", "construction succeeds although %s failed", failed.c_str()); released("after a failed construction"); vmon::stat("failures", 1); vmon::nontrivial(vmon::mix(std::hash<string>()(failed), k)); }
    vmon::evals(1);
}
static void errors(uint64_t, Rng& r) { // the device or the library fails while playing
    draw(r); const int orate = r.chance(1, 2) ? file.rate : 44100; const int what = (int)r.range(0, 2); bool rep = r.chance(1, 2); const long N = total(); if (what == 0) file.read_err_at = (long)r.range(0, (int64_t)file.pkts.size()); if (what == 1) { rep = true; file.seek_err_after = (long)r.range(0, 2); } if (what == 2) file.swr_err_at = (long)r.range(0, 6); describe(orate, rep, 4096); CTX += what == 0 ? vmon::fmt(", read error at packet %ld", file.read_err_at) : what == 1 ? vmon::fmt(", seek fails after %ld", file.seek_err_after) : vmon::fmt(", resampler fails after %ld", file.swr_err_at);
    { Src S("s", NAME, orate, rep, on_end); cler::Channel<float> ch(4096); vector<float> got(ch.space() + 1); long have = 0; bool fatal = false; cler::Error e = cler::Error::OK; for (int i = 0; i < 3000 && !fatal; ++i) { vmon::tick(); auto x = S.procedure(&ch); if (x.is_err() && cler::is_fatal(x.unwrap_err())) { fatal = true; e = x.unwrap_err(); } size_t n = ch.readN(got.data(), (size_t)r.range(0, (int64_t)ch.size())); for (size_t k = 0; k < n; ++k, ++have) { long id = (long)((__int128)have * file.rate / orate) % std::max(N, 1L); if (orate == file.rate && got[k] != (float)mono(id)) { bad("audio:samples", "sample %ld is %.9g, should be %.9g", have, got[k], (double)mono(id)); return; } } if (eofs && !rep) break; }
      const bool hit = what == 0 ? reads >= file.read_err_at && (rep || !eofs) : what == 1 ? true : converts > file.swr_err_at; if (hit && !fatal) bad("audio:error-lost", "an unrecoverable failure does not end the flowgraph"); if (hit) { vmon::stat(what == 0 ? "read_errors" : what == 1 ? "seek_errors" : "resampler_errors", 1); vmon::nontrivial(vmon::mix(what, vmon::mix(have, file.pkts.size()))); } (void)e; }
    released("after destruction"); vmon::evals(1);
}
int main(int c, char** v) { return vmon::run(c, v, {{"deliver", deliver}, {"faults", faults}, {"errors", errors}}, 20); }
