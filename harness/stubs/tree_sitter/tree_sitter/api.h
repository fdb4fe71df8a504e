// The part of tree-sitter's C interface that the diagram tool uses; served by the harness, whose generator
// writes a source text and its syntax tree (node kinds of tree-sitter-cpp) together.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct TSLanguage TSLanguage; typedef struct TSParser TSParser; typedef struct TSTree TSTree; typedef uint16_t TSSymbol;
typedef struct TSPoint { uint32_t row, column; } TSPoint;
typedef struct TSNode { uint32_t context[4]; const void* id; const TSTree* tree; } TSNode;
TSParser* ts_parser_new(void); void ts_parser_delete(TSParser*); bool ts_parser_set_language(TSParser*, const TSLanguage*); void ts_parser_reset(TSParser*);
TSTree* ts_parser_parse_string(TSParser*, const TSTree* old, const char* string, uint32_t length);
void ts_tree_delete(TSTree*); TSNode ts_tree_root_node(const TSTree*);
const char* ts_node_type(TSNode); uint32_t ts_node_start_byte(TSNode); uint32_t ts_node_end_byte(TSNode); TSPoint ts_node_start_point(TSNode); TSPoint ts_node_end_point(TSNode);
bool ts_node_is_null(TSNode); bool ts_node_is_named(TSNode); bool ts_node_is_extra(TSNode); bool ts_node_is_missing(TSNode); bool ts_node_has_error(TSNode); bool ts_node_is_error(TSNode); bool ts_node_eq(TSNode, TSNode);
TSNode ts_node_parent(TSNode); TSNode ts_node_child(TSNode, uint32_t); uint32_t ts_node_child_count(TSNode); TSNode ts_node_named_child(TSNode, uint32_t); uint32_t ts_node_named_child_count(TSNode); TSNode ts_node_child_by_field_name(TSNode, const char* name, uint32_t length); TSNode ts_node_next_sibling(TSNode); TSNode ts_node_prev_sibling(TSNode);
#ifdef __cplusplus
}
#endif
