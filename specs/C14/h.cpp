#include "vp.h"
#include "page.h"
#include "mmap.h"
using namespace tt;

template<class T> static T *any(const char *name) { return (T*)vp_bytes(name, sizeof(T)); }

// file header: version, compacted and millisecond share one byte
HARNESS(file_header)
{
    struct tsdb_header *h = any<struct tsdb_header>("header");
    struct tsdb_header old = *h;
    int op = vp_split(vp_range("op", 0, 2), 0, 2);
    bool on = vp_bool("on");
    int version = vp_range("version", 0, 7);
    if (op == 0) h->set_compacted(on);
    else if (op == 1) h->set_millisecond(on);
    else h->set_compressor_version(version);
    COVER("field set");
    ENSURES(h->is_compacted() == (op == 0 ? on : old.is_compacted()), "compacted flag");
    ENSURES(h->is_millisecond() == (op == 1 ? on : old.is_millisecond()), "millisecond flag");
    ENSURES(h->get_compressor_version() == (op == 2 ? version : old.get_compressor_version()), "compressor version");
    ENSURES(((h->m_flags ^ old.m_flags) & 0x38) == 0, "unused bits");
    uint64_t k = vp_range("k", 0, sizeof(old) - 1);
    if (k != (uint64_t)((uint8_t*)&h->m_flags - (uint8_t*)h))
        ENSURES(((uint8_t*)h)[k] == ((uint8_t*)&old)[k], "nothing else changes");
}

HARNESS(file_full)
{
    struct tsdb_header *h = any<struct tsdb_header>("header");
    bool full = h->is_full();
    COVER("end");
    ENSURES(full == (h->m_page_index >= h->m_actual_pg_cnt || h->m_header_index >= h->m_page_count), "full when pages or headers are used up");
}

HARNESS(page_header)
{
    struct page_info_on_disk *h = any<struct page_info_on_disk>("header");
    struct page_info_on_disk old = *h;
    int op = vp_split(vp_range("op", 0, 3), 0, 3);
    bool on = vp_bool("on");
    uint32_t to = vp_u32("to");
    if (op == 0) h->set_full(on);
    else if (op == 1) h->set_out_of_order(on);
    else if (op == 2) h->init(vp_u16("cursor"), vp_u8("start"), on, to);
    else
    {
        struct page_info_on_disk *from = any<struct page_info_on_disk>("from");
        h->init(from);
        COVER("copied");
        uint64_t k = vp_range("k", 0, sizeof(old) - 1);
        ENSURES(((uint8_t*)h)[k] == ((uint8_t*)from)[k], "copy is complete");
        return;
    }
    COVER("field set");
    ENSURES(h->is_full() == (op == 0 || op == 2 ? on : old.is_full()), "full flag");
    ENSURES(h->is_out_of_order() == (op == 1 ? on : old.is_out_of_order()), "out-of-order flag");
    ENSURES(((h->m_flags ^ old.m_flags) & 0xFC) == 0, "unused bits");
    ENSURES(h->m_page_index == old.m_page_index, "page index");
    ENSURES(h->m_tstamp_to == (op == 2 ? to : old.m_tstamp_to), "last timestamp");
    ENSURES(h->get_next_file() == old.m_next_file && h->get_next_header() == old.m_next_header, "next page");
    ENSURES(h->is_valid() == (old.m_page_index != TT_INVALID_PAGE_INDEX), "validity");
}

// a fresh header says: nothing there
HARNESS(page_header_init)
{
    struct page_info_on_disk *h = any<struct page_info_on_disk>("header");
    h->init();
    COVER("end");
    ENSURES(!h->is_full() && !h->is_out_of_order() && !h->is_valid() && h->m_tstamp_to == 0, "empty");
    ENSURES(h->get_next_file() == TT_INVALID_FILE_INDEX && h->get_next_header() == TT_INVALID_HEADER_INDEX, "no next page");
}

// with 0 <= page < pages per file this numbers all pages of all files without overlap
HARNESS(page_index)
{
    struct page_info_on_disk *h = any<struct page_info_on_disk>("header");
    FileIndex f = vp_u16("file");
    PageCount n = vp_u16("n");
    COVER("end");
    ENSURES(h->get_global_page_index(f, n) == (long)f * n + h->m_page_index, "pages are numbered file by file");
}

HARNESS(compress_header)
{
    struct compress_info_on_disk *c = any<struct compress_info_on_disk>("c");
    struct page_info_on_disk *h = any<struct page_info_on_disk>("header");
    COVER("end");
    ENSURES(c->is_empty() == (c->m_cursor == 0 && c->m_start == 0), "empty");
    ENSURES(h->is_empty(c) == c->is_empty(), "empty");
}
