/* Stand-in for libswiftnav's byte FIFO. */
#ifndef VP_FIFO_BYTE_H
#define VP_FIFO_BYTE_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef u32 fifo_size_t;
typedef struct { fifo_size_t read_index, write_index, buffer_size; u8 *buffer; } fifo_t;
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t buffer_size);
fifo_size_t fifo_length(fifo_t *fifo);
fifo_size_t fifo_space(fifo_t *fifo);
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t write_size);
fifo_size_t fifo_peek(fifo_t *fifo, u8 *buffer, fifo_size_t peek_size);
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t read_size);
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t remove_size);
#ifdef __cplusplus
}
#endif
#endif
