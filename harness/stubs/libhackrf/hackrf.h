// Declarations of the libhackrf functions that the blocks call; h_sdr.cpp implements them.
#pragma once
#include <stdint.h>
extern "C" {
enum hackrf_error { HACKRF_SUCCESS = 0, HACKRF_ERROR_INVALID_PARAM = -2, HACKRF_ERROR_NOT_FOUND = -5, HACKRF_ERROR_BUSY = -6, HACKRF_ERROR_LIBUSB = -1000, HACKRF_ERROR_OTHER = -9999 };
typedef struct hackrf_device hackrf_device;
typedef struct { hackrf_device* device; uint8_t* buffer; int buffer_length; int valid_length; void* rx_ctx; void* tx_ctx; } hackrf_transfer;
typedef int (*hackrf_sample_block_cb_fn)(hackrf_transfer* transfer);
int hackrf_init(void); int hackrf_exit(void); int hackrf_open(hackrf_device** device); int hackrf_close(hackrf_device* device);
int hackrf_start_rx(hackrf_device* device, hackrf_sample_block_cb_fn callback, void* rx_ctx); int hackrf_stop_rx(hackrf_device* device);
int hackrf_start_tx(hackrf_device* device, hackrf_sample_block_cb_fn callback, void* tx_ctx); int hackrf_stop_tx(hackrf_device* device);
int hackrf_set_freq(hackrf_device* device, const uint64_t freq_hz); int hackrf_set_sample_rate(hackrf_device* device, const double freq_hz);
int hackrf_set_amp_enable(hackrf_device* device, const uint8_t value); int hackrf_set_lna_gain(hackrf_device* device, uint32_t value); int hackrf_set_vga_gain(hackrf_device* device, uint32_t value); int hackrf_set_txvga_gain(hackrf_device* device, uint32_t value);
}
