#pragma once
#include "fdb_types.h"
#include "fdb_errors.h"
#ifdef __cplusplus
extern "C" {
#endif
fdb_config fdb_get_default_config(void);
fdb_kvs_config fdb_get_default_kvs_config(void);
fdb_status fdb_open(fdb_file_handle** out, const char* filename, fdb_config* config);
fdb_status fdb_open_custom_cmp(fdb_file_handle** out, const char* filename, fdb_config* config,
                               size_t num, char** kvs_names, fdb_custom_cmp_variable* functions,
                               void** user_params);
fdb_status fdb_kvs_open(fdb_file_handle*, fdb_kvs_handle** out, const char* name, fdb_kvs_config*);
fdb_status fdb_kvs_close(fdb_kvs_handle*);
fdb_status fdb_close(fdb_file_handle*);
fdb_status fdb_commit(fdb_file_handle*, fdb_commit_opt_t);
fdb_status fdb_sync_file(fdb_file_handle*);
fdb_status fdb_set(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_del(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_metaonly(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_nearest(fdb_kvs_handle*, const void* key, size_t keylen, fdb_doc*, fdb_get_nearest_opt_t);
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_snapshot_open(fdb_kvs_handle* src, fdb_kvs_handle** dst, fdb_seqnum_t seqnum);
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle*, fdb_seqnum_t* out);
fdb_status fdb_iterator_init(fdb_kvs_handle*, fdb_iterator**, const void* min, size_t minlen,
                             const void* max, size_t maxlen, fdb_iterator_opt_t);
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle*, fdb_iterator**, fdb_seqnum_t min,
                                      fdb_seqnum_t max, fdb_iterator_opt_t);
fdb_status fdb_iterator_prev(fdb_iterator*);
fdb_status fdb_iterator_next(fdb_iterator*);
fdb_status fdb_iterator_get(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_get_metaonly(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_seek(fdb_iterator*, const void* key, size_t keylen, fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_byseq(fdb_iterator*, fdb_seqnum_t, fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_to_min(fdb_iterator*);
fdb_status fdb_iterator_seek_to_max(fdb_iterator*);
fdb_status fdb_iterator_close(fdb_iterator*);
fdb_status fdb_doc_free(fdb_doc*);
fdb_status fdb_get_file_info(fdb_file_handle*, fdb_file_info*);
fdb_status fdb_get_kvs_info(fdb_kvs_handle*, fdb_kvs_info*);
fdb_status fdb_get_all_snap_markers(fdb_file_handle*, fdb_snapshot_info_t**, uint64_t*);
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t*, uint64_t);
fdb_status fdb_traverse_index(fdb_kvs_handle*, const void* key, size_t keylen, fdb_index_traversal_cb, void* ctx);
uint64_t fdb_get_buffer_cache_used(void);
void fdb_print_cache_stats(void);
fdb_status fdb_shutdown(void);
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void* ctx);
#ifdef __cplusplus
}
#endif
