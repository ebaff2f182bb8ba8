"""Names of DWARF tags and attributes (standard and GNU), as printed by GNU readelf."""
TAGS = {
    0x1: "array_type", 0x2: "class_type", 0x3: "entry_point", 0x4: "enumeration_type", 0x5: "formal_parameter", 0x8: "imported_declaration", 0xa:
    "label", 0xb: "lexical_block", 0xd: "member", 0xf: "pointer_type", 0x10: "reference_type", 0x11: "compile_unit", 0x12: "string_type", 0x13:
    "structure_type", 0x15: "subroutine_type", 0x16: "typedef", 0x17: "union_type", 0x18: "unspecified_parameters", 0x19: "variant", 0x1a:
    "common_block", 0x1b: "common_inclusion", 0x1c: "inheritance", 0x1d: "inlined_subroutine", 0x1e: "module", 0x1f: "ptr_to_member_type", 0x20:
    "set_type", 0x21: "subrange_type", 0x22: "with_stmt", 0x23: "access_declaration", 0x24: "base_type", 0x25: "catch_block", 0x26: "const_type",
    0x27: "constant", 0x28: "enumerator", 0x29: "file_type", 0x2a: "friend", 0x2b: "namelist", 0x2c: "namelist_item", 0x2d: "packed_type", 0x2e:
    "subprogram", 0x2f: "template_type_param", 0x30: "template_value_param", 0x31: "thrown_type", 0x32: "try_block", 0x33: "variant_part", 0x34:
    "variable", 0x35: "volatile_type", 0x36: "dwarf_procedure", 0x37: "restrict_type", 0x38: "interface_type", 0x39: "namespace", 0x3a:
    "imported_module", 0x3b: "unspecified_type", 0x3c: "partial_unit", 0x3d: "imported_unit", 0x3f: "condition", 0x40: "shared_type", 0x41:
    "type_unit", 0x42: "rvalue_reference_type", 0x43: "template_alias", 0x44: "coarray_type", 0x45: "generic_subrange", 0x46: "dynamic_type", 0x47:
    "atomic_type", 0x48: "call_site", 0x49: "call_site_parameter", 0x4a: "skeleton_unit", 0x4b: "immutable_type", 0x4104: "GNU_BINCL", 0x4105:
    "GNU_EINCL", 0x4106: "GNU_template_template_param", 0x4107: "GNU_template_parameter_pack", 0x4108: "GNU_formal_parameter_pack", 0x4109:
    "GNU_call_site", 0x410a: "GNU_call_site_parameter"
}
ATS = {
    0x1: "sibling", 0x2: "location", 0x3: "name", 0x9: "ordering", 0xa: "subscr_data", 0xb: "byte_size", 0xc: "bit_offset", 0xd: "bit_size", 0xf:
    "element_list", 0x10: "stmt_list", 0x11: "low_pc", 0x12: "high_pc", 0x13: "language", 0x14: "member", 0x15: "discr", 0x16: "discr_value", 0x17:
    "visibility", 0x18: "import", 0x19: "string_length", 0x1a: "common_reference", 0x1b: "comp_dir", 0x1c: "const_value", 0x1d: "containing_type",
    0x1e: "default_value", 0x20: "inline", 0x21: "is_optional", 0x22: "lower_bound", 0x25: "producer", 0x27: "prototyped", 0x2a: "return_addr", 0x2c:
    "start_scope", 0x2e: "bit_stride", 0x2f: "upper_bound", 0x31: "abstract_origin", 0x32: "accessibility", 0x33: "address_class", 0x34: "artificial",
    0x35: "base_types", 0x36: "calling_convention", 0x37: "count", 0x38: "data_member_location", 0x39: "decl_column", 0x3a: "decl_file", 0x3b:
    "decl_line", 0x3c: "declaration", 0x3d: "discr_list", 0x3e: "encoding", 0x3f: "external", 0x40: "frame_base", 0x41: "friend", 0x42:
    "identifier_case", 0x43: "macro_info", 0x44: "namelist_item", 0x45: "priority", 0x46: "segment", 0x47: "specification", 0x48: "static_link", 0x49:
    "type", 0x4a: "use_location", 0x4b: "variable_parameter", 0x4c: "virtuality", 0x4d: "vtable_elem_location", 0x4e: "allocated", 0x4f: "associated",
    0x50: "data_location", 0x51: "byte_stride", 0x52: "entry_pc", 0x53: "use_UTF8", 0x54: "extension", 0x55: "ranges", 0x56: "trampoline", 0x57:
    "call_column", 0x58: "call_file", 0x59: "call_line", 0x5a: "description", 0x5b: "binary_scale", 0x5c: "decimal_scale", 0x5d: "small", 0x5e:
    "decimal_sign", 0x5f: "digit_count", 0x60: "picture_string", 0x61: "mutable", 0x62: "threads_scaled", 0x63: "explicit", 0x64: "object_pointer",
    0x65: "endianity", 0x66: "elemental", 0x67: "pure", 0x68: "recursive", 0x69: "signature", 0x6a: "main_subprogram", 0x6b: "data_bit_offset", 0x6c:
    "const_expr", 0x6d: "enum_class", 0x6e: "linkage_name", 0x6f: "string_length_bit_size", 0x70: "string_length_byte_size", 0x71: "rank", 0x72:
    "str_offsets_base", 0x73: "addr_base", 0x74: "rnglists_base", 0x76: "dwo_name", 0x77: "reference", 0x78: "rvalue_reference", 0x79: "macros", 0x7a:
    "call_all_calls", 0x7b: "call_all_source_calls", 0x7c: "call_all_tail_calls", 0x7d: "call_return_pc", 0x7e: "call_value", 0x7f: "call_origin",
    0x80: "call_parameter", 0x81: "call_pc", 0x82: "call_tail_call", 0x83: "call_target", 0x84: "call_target_clobbered", 0x85: "call_data_location",
    0x86: "call_data_value", 0x87: "noreturn", 0x88: "alignment", 0x89: "export_symbols", 0x8a: "deleted", 0x8b: "defaulted", 0x8c: "loclists_base",
    0x2107: "GNU_vector", 0x2108: "GNU_guarded_by", 0x2109: "GNU_pt_guarded_by", 0x210a: "GNU_guarded", 0x210b: "GNU_pt_guarded", 0x210c:
    "GNU_locks_excluded", 0x210d: "GNU_exclusive_locks_required", 0x210e: "GNU_shared_locks_required", 0x210f: "GNU_odr_signature", 0x2110:
    "GNU_template_name", 0x2111: "GNU_call_site_value", 0x2112: "GNU_call_site_data_value", 0x2113: "GNU_call_site_target", 0x2114:
    "GNU_call_site_target_clobbered", 0x2115: "GNU_tail_call", 0x2116: "GNU_all_tail_call_sites", 0x2117: "GNU_all_call_sites", 0x2118:
    "GNU_all_source_call_sites", 0x2119: "GNU_macros", 0x211a: "GNU_deleted", 0x2130: "GNU_dwo_name", 0x2131: "GNU_dwo_id", 0x2132: "GNU_ranges_base",
    0x2133: "GNU_addr_base", 0x2134: "GNU_pubnames", 0x2135: "GNU_pubtypes", 0x2136: "GNU_discriminator", 0x2303: "GNU_numerator", 0x2304:
    "GNU_denominator", 0x2305: "GNU_bias"
}
