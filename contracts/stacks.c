/* Contracts on stacks.cc.  A stack is the sequence of its items 0..index; (g_i, g_j) is an arbitrary byte of an
   arbitrary item, so a statement about it speaks about every byte of every item. */
#include <string.h>
#include "stacks.h"
#include "error.h"
#include "memory.h"
bool log_file_is_open;
long nondet_long(void);
unsigned char nondet_uchar(void);
int error_count;
void error(int n) { error_count++; }
void error2(int n, const char* p) { error_count++; }
#ifndef SIZE
#define SIZE 24
#endif
#ifndef MAXITEMS
#define MAXITEMS 0x1000000
#endif
long g_i, g_j;           /* the witness: item and byte */
long push(instance_data_ptr s, const void* value);
void* pop(instance_data_ptr s);
void* top(instance_data_ptr s);
void* item_at(instance_data_ptr s, long index);
void clear_stack(instance_data_ptr s);

#define AT(s, item, byte) (((const unsigned char*)(s)->item_array)[(item) * SIZE + (byte)])
#define SHAPE(s) (__CPROVER_is_fresh(s, sizeof(instance_data)) && (s)->item_size == SIZE && (s)->stack_size >= 0 && (s)->stack_size <= MAXITEMS \
    && (s)->index >= -1 && ((s)->index < (s)->stack_size || (s)->index == -1) \
    && ((s)->stack_size == 0 ? (s)->item_array == NULL : __CPROVER_is_fresh((s)->item_array, (size_t)(s)->stack_size * SIZE)))
#define WITNESS(s) (g_j >= 0 && g_j < SIZE && g_i >= 0)
#define KEPT(s) ((s)->stack_size == __CPROVER_old((s)->stack_size) && (s)->item_size == __CPROVER_old((s)->item_size) && (s)->item_array == __CPROVER_old((s)->item_array))

void* item_at(instance_data_ptr s, long index)
__CPROVER_requires(SHAPE(s) && index >= 0 && index < s->stack_size)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (void*)((unsigned char*)s->item_array + index * SIZE))
;
void* top(instance_data_ptr s)
__CPROVER_requires(SHAPE(s) && s->index >= 0)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (void*)((unsigned char*)s->item_array + s->index * SIZE))
;
void* pop(instance_data_ptr s)
__CPROVER_requires(SHAPE(s))
__CPROVER_assigns(s->index)
__CPROVER_ensures(KEPT(s))
__CPROVER_ensures(__CPROVER_old(s->index) < 0 ==> s->index == __CPROVER_old(s->index) && __CPROVER_return_value == NULL)
__CPROVER_ensures(__CPROVER_old(s->index) >= 0 ==> s->index == __CPROVER_old(s->index) - 1
    && __CPROVER_return_value == (void*)((unsigned char*)s->item_array + __CPROVER_old(s->index) * SIZE))
;
void clear_stack(instance_data_ptr s)
__CPROVER_requires(SHAPE(s))
__CPROVER_assigns(s->index)
__CPROVER_ensures(s->index == -1 && KEPT(s))
;
#define REACH __CPROVER_assert(0, "vt_reach")
static void world(void) { g_i = nondet_long(); g_j = nondet_long(); error_count = 0; }
#ifdef H_item_at
void harness(void) { world(); instance_data_ptr s; item_at(s, nondet_long()); REACH; }
#endif
#ifdef H_top
void harness(void) { world(); instance_data_ptr s; top(s); REACH; }
#endif
#ifdef H_pop
void harness(void) { world(); instance_data_ptr s; pop(s); REACH; }
#endif
#ifdef H_clear
void harness(void) { world(); instance_data_ptr s; clear_stack(s); REACH; }
#endif
#if defined H_push
/* push from every state of a stack: the item array may move */
void harness(void)
{
    world();
    long in_index = nondet_long(), in_size = nondet_long();
    instance_data d;
    __CPROVER_assume(in_size >= 0 && in_size <= MAXITEMS && in_index >= -1 && (in_index < in_size || in_index == -1));
    d.index = in_index; d.stack_size = in_size; d.item_size = SIZE;
    unsigned char* items = in_size == 0 ? NULL : malloc((size_t)in_size * SIZE);
    __CPROVER_assume(in_size == 0 || items != NULL);
    d.item_array = items;
    unsigned char value[SIZE];
    unsigned char in_byte = 0;
    __CPROVER_assume(WITNESS(&d));
    if (g_i <= in_index) in_byte = items[g_i * SIZE + g_j];
    long r = push(&d, value);
    __CPROVER_assert(d.index == in_index + 1 && r == d.index, "one more item");
    __CPROVER_assert(d.item_size == SIZE && d.index < d.stack_size && d.stack_size >= in_size, "the stack is well formed");
    __CPROVER_assert(__CPROVER_OBJECT_SIZE(d.item_array) >= (size_t)d.stack_size * SIZE && __CPROVER_POINTER_OFFSET(d.item_array) == 0, "the item array has room for stack_size items");
    __CPROVER_assert(AT(&d, d.index, g_j) == value[g_j], "the value on top is the one pushed");
    if (g_i <= in_index) __CPROVER_assert(AT(&d, g_i, g_j) == in_byte, "the items below are unchanged");
    __CPROVER_assert(error_count == 0, "no error");
    REACH;
}
#endif
#ifdef H_create
void harness(void)
{
    world();
    stack_ptr a = create_stack(SIZE), b = create_stack(SIZE);
    __CPROVER_assume(a != NULL && b != NULL);
    __CPROVER_assert(a->instance->index == -1 && a->instance->stack_size == 0 && a->instance->item_size == SIZE && a->instance->item_array == NULL, "a new stack is empty");
    __CPROVER_assert(a != b && a->instance != b->instance, "stacks are independent");
    __CPROVER_assert(a->push == push && a->pop == pop && a->top == top && a->clear == clear_stack && a->item_at == item_at, "the operations of the stack");
    REACH;
}
#endif
