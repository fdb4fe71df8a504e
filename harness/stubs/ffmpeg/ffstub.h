// Declarations of the part of FFmpeg's public API (6.x names and meanings) that an audio decoding block can use.
// The behaviour behind them is simulated in h_audio.cpp; no FFmpeg is installed here.
#ifndef FFSTUB_H
#define FFSTUB_H
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#ifndef LIBAVCODEC_VERSION_MAJOR
#define LIBAVCODEC_VERSION_MAJOR 60
#endif
#define LIBAVCODEC_VERSION_MINOR 31
#define LIBAVCODEC_VERSION_INT (LIBAVCODEC_VERSION_MAJOR << 16 | 31 << 8)
#define AV_VERSION_INT(a,b,c) ((a) << 16 | (b) << 8 | (c))
#define LIBAVUTIL_VERSION_MAJOR 58
#define LIBAVUTIL_VERSION_INT AV_VERSION_INT(58,29,100)
#define LIBSWRESAMPLE_VERSION_MAJOR 4
#define LIBSWRESAMPLE_VERSION_INT AV_VERSION_INT(4,12,100)
#define LIBAVFORMAT_VERSION_MAJOR 60
#define LIBAVFORMAT_VERSION_INT AV_VERSION_INT(60,16,100)
#define AVERROR(e) (-(e))
#define AVUNERROR(e) (-(e))
#define MKTAG(a,b,c,d) ((a) | ((b) << 8) | ((c) << 16) | ((unsigned)(d) << 24))
#define FFERRTAG(a,b,c,d) (-(int)MKTAG(a,b,c,d))
#define AVERROR_EOF FFERRTAG('E','O','F',' ')
#define AVERROR_INVALIDDATA FFERRTAG('I','N','D','A')
#define AVERROR_DECODER_NOT_FOUND FFERRTAG(0xF8,'D','E','C')
#define AVERROR_STREAM_NOT_FOUND FFERRTAG(0xF8,'S','T','R')
#define AVERROR_UNKNOWN FFERRTAG('U','N','K','N')
#define AVERROR_BUG FFERRTAG('B','U','G','!')
#define AV_ERROR_MAX_STRING_SIZE 64
#define AV_NOPTS_VALUE ((int64_t)UINT64_C(0x8000000000000000))
#define AV_TIME_BASE 1000000
#define AV_NUM_DATA_POINTERS 8
#define AVSEEK_FLAG_BACKWARD 1
#define AVSEEK_FLAG_BYTE 2
#define AVSEEK_FLAG_ANY 4
#define AVSEEK_FLAG_FRAME 8
#define AV_CH_LAYOUT_MONO 4ULL
#define AV_CH_LAYOUT_STEREO 3ULL
#define AV_CH_LAYOUT_5POINT1 0x60FULL
#define AV_PKT_FLAG_KEY 1
#define AV_LOG_QUIET (-8)
#define AV_LOG_ERROR 16
#define AV_LOG_WARNING 24
enum AVMediaType { AVMEDIA_TYPE_UNKNOWN = -1, AVMEDIA_TYPE_VIDEO, AVMEDIA_TYPE_AUDIO, AVMEDIA_TYPE_DATA, AVMEDIA_TYPE_SUBTITLE };
enum AVCodecID { AV_CODEC_ID_NONE = 0, AV_CODEC_ID_STUB = 86017 };
enum AVSampleFormat { AV_SAMPLE_FMT_NONE = -1, AV_SAMPLE_FMT_U8, AV_SAMPLE_FMT_S16, AV_SAMPLE_FMT_S32, AV_SAMPLE_FMT_FLT, AV_SAMPLE_FMT_DBL,
  AV_SAMPLE_FMT_U8P, AV_SAMPLE_FMT_S16P, AV_SAMPLE_FMT_S32P, AV_SAMPLE_FMT_FLTP, AV_SAMPLE_FMT_DBLP };
enum AVRounding { AV_ROUND_ZERO, AV_ROUND_INF, AV_ROUND_DOWN, AV_ROUND_UP, AV_ROUND_NEAR_INF = 5 };
enum AVChannelOrder { AV_CHANNEL_ORDER_UNSPEC, AV_CHANNEL_ORDER_NATIVE, AV_CHANNEL_ORDER_CUSTOM };
typedef struct AVRational { int num, den; } AVRational;
typedef struct AVDictionary AVDictionary;
typedef struct AVInputFormat AVInputFormat;
typedef struct AVIOContext AVIOContext;
typedef struct AVClass AVClass;
typedef struct AVChannelLayout { enum AVChannelOrder order; int nb_channels; union { uint64_t mask; void* map; } u; void* opaque; } AVChannelLayout;
#define AV_CHANNEL_LAYOUT_MASK(nb, m) { AV_CHANNEL_ORDER_NATIVE, (nb), { (m) }, 0 }
#define AV_CHANNEL_LAYOUT_MONO AV_CHANNEL_LAYOUT_MASK(1, AV_CH_LAYOUT_MONO)
#define AV_CHANNEL_LAYOUT_STEREO AV_CHANNEL_LAYOUT_MASK(2, AV_CH_LAYOUT_STEREO)
typedef struct AVCodecParameters { enum AVMediaType codec_type; enum AVCodecID codec_id; int format; uint64_t channel_layout; int channels; int sample_rate; int frame_size; AVChannelLayout ch_layout; } AVCodecParameters;
typedef struct AVStream { int index; int id; AVCodecParameters* codecpar; AVRational time_base; int64_t start_time, duration, nb_frames; } AVStream;
typedef struct AVFormatContext { const AVClass* av_class; const AVInputFormat* iformat; AVIOContext* pb; unsigned nb_streams; AVStream** streams; char* url; int64_t start_time, duration, bit_rate; int flags; void* stub; } AVFormatContext;
typedef struct AVPacket { void* buf; int64_t pts, dts; uint8_t* data; int size; int stream_index; int flags; int64_t duration, pos; } AVPacket;
typedef struct AVFrame { uint8_t* data[AV_NUM_DATA_POINTERS]; int linesize[AV_NUM_DATA_POINTERS]; uint8_t** extended_data; int nb_samples; int format; int64_t pts; int sample_rate; uint64_t channel_layout; int channels; AVChannelLayout ch_layout; void* stub; } AVFrame;
typedef struct AVCodec { const char* name; const char* long_name; enum AVMediaType type; enum AVCodecID id; } AVCodec;
typedef struct AVCodecContext { const AVClass* av_class; enum AVMediaType codec_type; const AVCodec* codec; enum AVCodecID codec_id; int sample_rate; int channels; enum AVSampleFormat sample_fmt; int frame_size; uint64_t channel_layout; AVRational time_base, pkt_timebase; AVChannelLayout ch_layout; int thread_count; int err_recognition; void* stub; } AVCodecContext;
typedef struct SwrContext SwrContext;

int av_strerror(int err, char* buf, size_t n);
void av_log_set_level(int);
void av_free(void*); void av_freep(void*); void* av_malloc(size_t); void* av_mallocz(size_t);
int64_t av_rescale_rnd(int64_t a, int64_t b, int64_t c, enum AVRounding r);
int64_t av_rescale(int64_t a, int64_t b, int64_t c);
int av_get_bytes_per_sample(enum AVSampleFormat); int av_sample_fmt_is_planar(enum AVSampleFormat);
int av_get_channel_layout_nb_channels(uint64_t); int64_t av_get_default_channel_layout(int);
void av_channel_layout_default(AVChannelLayout*, int nb); int av_channel_layout_copy(AVChannelLayout*, const AVChannelLayout*);
void av_channel_layout_uninit(AVChannelLayout*); int av_channel_layout_from_mask(AVChannelLayout*, uint64_t); int av_channel_layout_compare(const AVChannelLayout*, const AVChannelLayout*); int av_channel_layout_check(const AVChannelLayout*);

int avformat_open_input(AVFormatContext** ps, const char* url, const AVInputFormat* fmt, AVDictionary** options);
int avformat_find_stream_info(AVFormatContext*, AVDictionary**);
int av_find_best_stream(AVFormatContext*, enum AVMediaType, int wanted, int related, const AVCodec** decoder, int flags);
int av_read_frame(AVFormatContext*, AVPacket*);
int av_seek_frame(AVFormatContext*, int stream, int64_t ts, int flags);
int avformat_seek_file(AVFormatContext*, int stream, int64_t min_ts, int64_t ts, int64_t max_ts, int flags);
void avformat_close_input(AVFormatContext**); void avformat_free_context(AVFormatContext*);

const AVCodec* avcodec_find_decoder(enum AVCodecID);
AVCodecContext* avcodec_alloc_context3(const AVCodec*); void avcodec_free_context(AVCodecContext**);
int avcodec_parameters_to_context(AVCodecContext*, const AVCodecParameters*); int avcodec_open2(AVCodecContext*, const AVCodec*, AVDictionary**);
int avcodec_close(AVCodecContext*);
int avcodec_send_packet(AVCodecContext*, const AVPacket*); int avcodec_receive_frame(AVCodecContext*, AVFrame*); void avcodec_flush_buffers(AVCodecContext*);
AVPacket* av_packet_alloc(void); void av_packet_free(AVPacket**); void av_packet_unref(AVPacket*); void av_init_packet(AVPacket*); int av_packet_ref(AVPacket*, const AVPacket*); void av_packet_move_ref(AVPacket*, AVPacket*);
AVFrame* av_frame_alloc(void); void av_frame_free(AVFrame**); void av_frame_unref(AVFrame*);

SwrContext* swr_alloc(void);
SwrContext* swr_alloc_set_opts(SwrContext*, int64_t out_layout, enum AVSampleFormat out_fmt, int out_rate, int64_t in_layout, enum AVSampleFormat in_fmt, int in_rate, int log_offset, void* log_ctx);
int swr_alloc_set_opts2(SwrContext**, const AVChannelLayout* out_layout, enum AVSampleFormat out_fmt, int out_rate, const AVChannelLayout* in_layout, enum AVSampleFormat in_fmt, int in_rate, int log_offset, void* log_ctx);
int swr_init(SwrContext*); int swr_is_initialized(SwrContext*); void swr_free(SwrContext**); void swr_close(SwrContext*);
int swr_convert(SwrContext*, uint8_t** out, int out_count, const uint8_t** in, int in_count);
int swr_get_out_samples(SwrContext*, int in_samples); int64_t swr_get_delay(SwrContext*, int64_t base);
#endif
