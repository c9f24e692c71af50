#pragma once
#include <stdint.h>
#include <buffer.h>
#include "os.h"
#define IO_APDU_BUFFER_SIZE (5 + 255)
extern uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
void io_init(void);
int io_recv_command(void);
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw);
static inline int io_send_sw(uint16_t sw) {
    return io_send_response_buffer(NULL, sw);
}
