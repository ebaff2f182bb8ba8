"""Names of the codes of the DWARF specification and its vendor extensions (as in the headers of elfutils and LLVM): prefix -> {code: names}."""
NAMES = {
    'TAG': {
        0x0: 'null', 0x1: 'array_type', 0x2: 'class_type', 0x3: 'entry_point', 0x4: 'enumeration_type', 0x5: 'formal_parameter', 0x8: 'imported_declaration', 0xa: 'label',
        0xb: 'lexical_block', 0xd: 'member', 0xf: 'pointer_type', 0x10: 'reference_type', 0x11: 'compile_unit', 0x12: 'string_type', 0x13: 'structure_type',
        0x15: 'subroutine_type', 0x16: 'typedef', 0x17: 'union_type', 0x18: 'unspecified_parameters', 0x19: 'variant', 0x1a: 'common_block', 0x1b: 'common_inclusion',
        0x1c: 'inheritance', 0x1d: 'inlined_subroutine', 0x1e: 'module', 0x1f: 'ptr_to_member_type', 0x20: 'set_type', 0x21: 'subrange_type', 0x22: 'with_stmt',
        0x23: 'access_declaration', 0x24: 'base_type', 0x25: 'catch_block', 0x26: 'const_type', 0x27: 'constant', 0x28: 'enumerator', 0x29: 'file_type', 0x2a: 'friend',
        0x2b: 'namelist', 0x2c: 'namelist_item', 0x2d: 'packed_type', 0x2e: 'subprogram', 0x2f: 'template_type_param template_type_parameter',
        0x30: 'template_value_param template_value_parameter', 0x31: 'thrown_type', 0x32: 'try_block', 0x33: 'variant_part', 0x34: 'variable', 0x35: 'volatile_type',
        0x36: 'dwarf_procedure', 0x37: 'restrict_type', 0x38: 'interface_type', 0x39: 'namespace', 0x3a: 'imported_module', 0x3b: 'unspecified_type', 0x3c: 'partial_unit',
        0x3d: 'imported_unit', 0x3f: 'condition', 0x40: 'shared_type', 0x41: 'type_unit', 0x42: 'rvalue_reference_type', 0x43: 'template_alias', 0x44: 'coarray_type',
        0x45: 'generic_subrange', 0x46: 'dynamic_type', 0x47: 'atomic_type', 0x48: 'call_site', 0x49: 'call_site_parameter', 0x4a: 'skeleton_unit', 0x4b: 'immutable_type',
        0x4080: 'lo_user', 0x4081: 'MIPS_loop', 0x4101: 'format_label', 0x4102: 'function_template', 0x4103: 'class_template', 0x4104: 'GNU_BINCL', 0x4105: 'GNU_EINCL',
        0x4106: 'GNU_template_template_param', 0x4107: 'GNU_template_parameter_pack', 0x4108: 'GNU_formal_parameter_pack', 0x4109: 'GNU_call_site',
        0x410a: 'GNU_call_site_parameter', 0x4200: 'APPLE_property', 0x4201: 'SUN_function_template', 0x4202: 'SUN_class_template', 0x4203: 'SUN_struct_template',
        0x4204: 'SUN_union_template', 0x4205: 'SUN_indirect_inheritance', 0x4206: 'SUN_codeflags', 0x4207: 'SUN_memop_info', 0x4208: 'SUN_omp_child_func',
        0x4209: 'SUN_rtti_descriptor', 0x420a: 'SUN_dtor_info', 0x420b: 'SUN_dtor', 0x420c: 'SUN_f90_interface', 0x420d: 'SUN_fortran_vax_structure', 0x42ff: 'SUN_hi',
        0x4300: 'LLVM_ptrauth_type', 0x5101: 'ALTIUM_circ_type', 0x5102: 'ALTIUM_mwa_circ_type', 0x5103: 'ALTIUM_rev_carry_type', 0x5111: 'ALTIUM_rom', 0x6000: 'LLVM_annotation',
        0x8004: 'GHS_namespace', 0x8005: 'GHS_using_namespace', 0x8006: 'GHS_using_declaration', 0x8007: 'GHS_template_templ_param', 0x8765: 'UPC_shared_type',
        0x8766: 'UPC_strict_type', 0x8767: 'UPC_relaxed', 0xa000: 'PGI_kanji_type', 0xa020: 'PGI_interface_block', 0xb000: 'BORLAND_property', 0xb001: 'BORLAND_Delphi_string',
        0xb002: 'BORLAND_Delphi_dynamic_array', 0xb003: 'BORLAND_Delphi_set', 0xb004: 'BORLAND_Delphi_variant', 0xffff: 'hi_user',
    },
    'CHILDREN': {
        0x0: 'no', 0x1: 'yes',
    },
    'AT': {
        0x1: 'sibling', 0x2: 'location', 0x3: 'name', 0x9: 'ordering', 0xa: 'subscr_data', 0xb: 'byte_size', 0xc: 'bit_offset', 0xd: 'bit_size', 0xf: 'element_list',
        0x10: 'stmt_list', 0x11: 'low_pc', 0x12: 'high_pc', 0x13: 'language', 0x14: 'member', 0x15: 'discr', 0x16: 'discr_value', 0x17: 'visibility', 0x18: 'import',
        0x19: 'string_length', 0x1a: 'common_reference', 0x1b: 'comp_dir', 0x1c: 'const_value', 0x1d: 'containing_type', 0x1e: 'default_value', 0x20: 'inline',
        0x21: 'is_optional', 0x22: 'lower_bound', 0x25: 'producer', 0x27: 'prototyped', 0x2a: 'return_addr', 0x2c: 'start_scope', 0x2e: 'bit_stride', 0x2f: 'upper_bound',
        0x31: 'abstract_origin', 0x32: 'accessibility', 0x33: 'address_class', 0x34: 'artificial', 0x35: 'base_types', 0x36: 'calling_convention', 0x37: 'count',
        0x38: 'data_member_location', 0x39: 'decl_column', 0x3a: 'decl_file', 0x3b: 'decl_line', 0x3c: 'declaration', 0x3d: 'discr_list', 0x3e: 'encoding', 0x3f: 'external',
        0x40: 'frame_base', 0x41: 'friend', 0x42: 'identifier_case', 0x43: 'macro_info', 0x44: 'namelist_item', 0x45: 'priority', 0x46: 'segment', 0x47: 'specification',
        0x48: 'static_link', 0x49: 'type', 0x4a: 'use_location', 0x4b: 'variable_parameter', 0x4c: 'virtuality', 0x4d: 'vtable_elem_location', 0x4e: 'allocated',
        0x4f: 'associated', 0x50: 'data_location', 0x51: 'byte_stride', 0x52: 'entry_pc', 0x53: 'use_UTF8', 0x54: 'extension', 0x55: 'ranges', 0x56: 'trampoline',
        0x57: 'call_column', 0x58: 'call_file', 0x59: 'call_line', 0x5a: 'description', 0x5b: 'binary_scale', 0x5c: 'decimal_scale', 0x5d: 'small', 0x5e: 'decimal_sign',
        0x5f: 'digit_count', 0x60: 'picture_string', 0x61: 'mutable', 0x62: 'threads_scaled', 0x63: 'explicit', 0x64: 'object_pointer', 0x65: 'endianity', 0x66: 'elemental',
        0x67: 'pure', 0x68: 'recursive', 0x69: 'signature', 0x6a: 'main_subprogram', 0x6b: 'data_bit_offset', 0x6c: 'const_expr', 0x6d: 'enum_class', 0x6e: 'linkage_name',
        0x6f: 'string_length_bit_size', 0x70: 'string_length_byte_size', 0x71: 'rank', 0x72: 'str_offsets_base', 0x73: 'addr_base', 0x74: 'rnglists_base', 0x75: 'dwo_id',
        0x76: 'dwo_name', 0x77: 'reference', 0x78: 'rvalue_reference', 0x79: 'macros', 0x7a: 'call_all_calls', 0x7b: 'call_all_source_calls', 0x7c: 'call_all_tail_calls',
        0x7d: 'call_return_pc', 0x7e: 'call_value', 0x7f: 'call_origin', 0x80: 'call_parameter', 0x81: 'call_pc', 0x82: 'call_tail_call', 0x83: 'call_target',
        0x84: 'call_target_clobbered', 0x85: 'call_data_location', 0x86: 'call_data_value', 0x87: 'noreturn', 0x88: 'alignment', 0x89: 'export_symbols', 0x8a: 'deleted',
        0x8b: 'defaulted', 0x8c: 'loclists_base', 0x806: 'GHS_namespace_alias', 0x807: 'GHS_using_namespace', 0x808: 'GHS_using_declaration', 0x2000: 'lo_user',
        0x2001: 'MIPS_fde', 0x2002: 'MIPS_loop_begin', 0x2003: 'MIPS_tail_loop_begin', 0x2004: 'MIPS_epilog_begin', 0x2005: 'MIPS_loop_unroll_factor',
        0x2006: 'MIPS_software_pipeline_depth', 0x2007: 'MIPS_linkage_name', 0x2008: 'MIPS_stride', 0x2009: 'MIPS_abstract_name', 0x200a: 'MIPS_clone_origin',
        0x200b: 'MIPS_has_inlines', 0x200c: 'MIPS_stride_byte', 0x200d: 'MIPS_stride_elem', 0x200e: 'MIPS_ptr_dopetype', 0x200f: 'MIPS_allocatable_dopetype',
        0x2010: 'MIPS_assumed_shape_dopetype', 0x2011: 'MIPS_assumed_size', 0x2012: 'HP_raw_data_ptr', 0x2013: 'HP_pass_by_reference', 0x2014: 'HP_opt_level',
        0x2015: 'HP_prof_version_id', 0x2016: 'HP_opt_flags', 0x2017: 'HP_cold_region_low_pc', 0x2018: 'HP_cold_region_high_pc', 0x2019: 'HP_all_variables_modifiable',
        0x201a: 'HP_linkage_name', 0x201b: 'HP_prof_flags', 0x201f: 'HP_unit_name', 0x2020: 'HP_unit_size', 0x2021: 'HP_widened_byte_size', 0x2022: 'HP_definition_points',
        0x2023: 'HP_default_location', 0x2026: 'DW_AT_INTEL_other_endian', 0x2029: 'HP_is_result_param', 0x2083: 'GHS_rsm', 0x2085: 'GHS_frsm', 0x2086: 'GHS_frames',
        0x2087: 'GHS_rso', 0x2092: 'GHS_subcpu', 0x2093: 'GHS_lbrace_line', 0x2101: 'sf_names', 0x2102: 'src_info', 0x2103: 'mac_info', 0x2104: 'src_coords',
        0x2105: 'body_begin', 0x2106: 'body_end', 0x2107: 'GNU_vector', 0x2108: 'GNU_guarded_by', 0x2109: 'GNU_pt_guarded_by', 0x210a: 'GNU_guarded', 0x210b: 'GNU_pt_guarded',
        0x210c: 'GNU_locks_excluded', 0x210d: 'GNU_exclusive_locks_required', 0x210e: 'GNU_shared_locks_required', 0x210f: 'GNU_odr_signature', 0x2110: 'GNU_template_name',
        0x2111: 'GNU_call_site_value', 0x2112: 'GNU_call_site_data_value', 0x2113: 'GNU_call_site_target', 0x2114: 'GNU_call_site_target_clobbered', 0x2115: 'GNU_tail_call',
        0x2116: 'GNU_all_tail_call_sites', 0x2117: 'GNU_all_call_sites', 0x2118: 'GNU_all_source_call_sites', 0x2119: 'GNU_macros', 0x211a: 'GNU_deleted', 0x2130: 'GNU_dwo_name',
        0x2131: 'GNU_dwo_id', 0x2132: 'GNU_ranges_base', 0x2133: 'GNU_addr_base', 0x2134: 'GNU_pubnames', 0x2135: 'GNU_pubtypes', 0x2136: 'GNU_discriminator',
        0x2137: 'GNU_locviews', 0x2138: 'GNU_entry_view', 0x2201: 'SUN_template', 0x2202: 'SUN_alignment', 0x2203: 'SUN_vtable', 0x2204: 'SUN_count_guarantee',
        0x2205: 'SUN_command_line', 0x2206: 'SUN_vbase', 0x2207: 'SUN_compile_options', 0x2208: 'SUN_language', 0x2209: 'SUN_browser_file', 0x2210: 'SUN_vtable_abi',
        0x2211: 'SUN_func_offsets', 0x2212: 'SUN_cf_kind', 0x2213: 'SUN_vtable_index', 0x2214: 'SUN_omp_tpriv_addr', 0x2215: 'SUN_omp_child_func', 0x2216: 'SUN_func_offset',
        0x2217: 'SUN_memop_type_ref', 0x2218: 'SUN_profile_id', 0x2219: 'SUN_memop_signature', 0x2220: 'SUN_obj_dir', 0x2221: 'SUN_obj_file', 0x2222: 'SUN_original_name',
        0x2223: 'SUN_hwcprof_signature', 0x2224: 'SUN_amd64_parmdump', 0x2225: 'SUN_part_link_name', 0x2226: 'SUN_link_name', 0x2227: 'SUN_pass_with_const',
        0x2228: 'SUN_return_with_const', 0x2229: 'SUN_import_by_name', 0x222a: 'SUN_90_pointer', 0x222b: 'SUN_pass_by_ref', 0x222c: 'SUN_f90_allocatable',
        0x222d: 'SUN_f90_assumed_shape_array', 0x222e: 'SUN_c_vla', 0x2230: 'SUN_return_value_ptr', 0x2231: 'SUN_dtor_start', 0x2232: 'SUN_dtor_length',
        0x2233: 'SUN_dtor_state_initial', 0x2234: 'SUN_dtor_state_final', 0x2235: 'SUN_dtor_state_deltas', 0x2236: 'SUN_import_by_lname', 0x2237: 'SUN_f90_use_only',
        0x2238: 'SUN_namelist_spec', 0x2239: 'SUN_is_omp_child_func', 0x223a: 'SUN_fortran_main_alias', 0x223b: 'SUN_fortran_based', 0x2300: 'ALTIUM_loclist',
        0x2301: 'use_GNAT_descriptive_type', 0x2302: 'GNAT_descriptive_type', 0x2303: 'GNU_numerator', 0x2304: 'GNU_denominator', 0x2305: 'GNU_bias', 0x2900: 'GO_kind',
        0x2901: 'GO_key', 0x2902: 'GO_elem', 0x2903: 'GO_embedded_field', 0x2904: 'GO_runtime_type', 0x3210: 'UPC_threads_scaled', 0x393e: 'IBM_wsa_addr',
        0x393f: 'IBM_home_location', 0x3940: 'IBM_alt_srcview', 0x3a00: 'PGI_lbase', 0x3a01: 'PGI_soffset', 0x3a02: 'PGI_lstride', 0x3b11: 'BORLAND_property_read',
        0x3b12: 'BORLAND_property_write', 0x3b13: 'BORLAND_property_implements', 0x3b14: 'BORLAND_property_index', 0x3b15: 'BORLAND_property_default',
        0x3b20: 'BORLAND_Delphi_unit', 0x3b21: 'BORLAND_Delphi_class', 0x3b22: 'BORLAND_Delphi_record', 0x3b23: 'BORLAND_Delphi_metaclass', 0x3b24: 'BORLAND_Delphi_constructor',
        0x3b25: 'BORLAND_Delphi_destructor', 0x3b26: 'BORLAND_Delphi_anonymous_method', 0x3b27: 'BORLAND_Delphi_interface', 0x3b28: 'BORLAND_Delphi_ABI',
        0x3b29: 'BORLAND_Delphi_return', 0x3b30: 'BORLAND_Delphi_frameptr', 0x3b31: 'BORLAND_closure', 0x3e00: 'LLVM_include_path', 0x3e01: 'LLVM_config_macros',
        0x3e02: 'LLVM_sysroot', 0x3e03: 'LLVM_tag_offset', 0x3e04: 'LLVM_ptrauth_key', 0x3e05: 'LLVM_ptrauth_address_discriminated', 0x3e06: 'LLVM_ptrauth_extra_discriminator',
        0x3e07: 'LLVM_apinotes', 0x3e08: 'LLVM_ptrauth_isa_pointer', 0x3e09: 'LLVM_ptrauth_authenticates_null_values', 0x3fe1: 'APPLE_optimized', 0x3fe2: 'APPLE_flags',
        0x3fe3: 'APPLE_isa', 0x3fe4: 'APPLE_block', 0x3fe5: 'APPLE_major_runtime_vers', 0x3fe6: 'APPLE_runtime_class', 0x3fe7: 'APPLE_omit_frame_ptr',
        0x3fe8: 'APPLE_property_name', 0x3fe9: 'APPLE_property_getter', 0x3fea: 'APPLE_property_setter', 0x3feb: 'APPLE_property_attribute', 0x3fec: 'APPLE_objc_complete_type',
        0x3fed: 'APPLE_property', 0x3fee: 'APPLE_objc_direct', 0x3fef: 'APPLE_sdk', 0x3ff0: 'APPLE_origin', 0x3fff: 'hi_user',
    },
    'FORM': {
        0x1: 'addr', 0x3: 'block2', 0x4: 'block4', 0x5: 'data2', 0x6: 'data4', 0x7: 'data8', 0x8: 'string', 0x9: 'block', 0xa: 'block1', 0xb: 'data1', 0xc: 'flag', 0xd: 'sdata',
        0xe: 'strp', 0xf: 'udata', 0x10: 'ref_addr', 0x11: 'ref1', 0x12: 'ref2', 0x13: 'ref4', 0x14: 'ref8', 0x15: 'ref_udata', 0x16: 'indirect', 0x17: 'sec_offset',
        0x18: 'exprloc', 0x19: 'flag_present', 0x1a: 'strx', 0x1b: 'addrx', 0x1c: 'ref_sup4', 0x1d: 'strp_sup', 0x1e: 'data16', 0x1f: 'line_strp', 0x20: 'ref_sig8',
        0x21: 'implicit_const', 0x22: 'loclistx', 0x23: 'rnglistx', 0x24: 'ref_sup8', 0x25: 'strx1', 0x26: 'strx2', 0x27: 'strx3', 0x28: 'strx4', 0x29: 'addrx1', 0x2a: 'addrx2',
        0x2b: 'addrx3', 0x2c: 'addrx4', 0x1f01: 'GNU_addr_index', 0x1f02: 'GNU_str_index', 0x1f20: 'GNU_ref_alt', 0x1f21: 'GNU_strp_alt', 0x2001: 'LLVM_addrx_offset',
    },
    'UT': {
        0x1: 'compile', 0x2: 'type', 0x3: 'partial', 0x4: 'skeleton', 0x5: 'split_compile', 0x6: 'split_type', 0x80: 'lo_user', 0xff: 'hi_user',
    },
    'OP': {
        0x3: 'addr', 0x6: 'deref', 0x8: 'const1u', 0x9: 'const1s', 0xa: 'const2u', 0xb: 'const2s', 0xc: 'const4u', 0xd: 'const4s', 0xe: 'const8u', 0xf: 'const8s', 0x10: 'constu',
        0x11: 'consts', 0x12: 'dup', 0x13: 'drop', 0x14: 'over', 0x15: 'pick', 0x16: 'swap', 0x17: 'rot', 0x18: 'xderef', 0x19: 'abs', 0x1a: 'and', 0x1b: 'div', 0x1c: 'minus',
        0x1d: 'mod', 0x1e: 'mul', 0x1f: 'neg', 0x20: 'not', 0x21: 'or', 0x22: 'plus', 0x23: 'plus_uconst', 0x24: 'shl', 0x25: 'shr', 0x26: 'shra', 0x27: 'xor', 0x28: 'bra',
        0x29: 'eq', 0x2a: 'ge', 0x2b: 'gt', 0x2c: 'le', 0x2d: 'lt', 0x2e: 'ne', 0x2f: 'skip', 0x30: 'lit0', 0x31: 'lit1', 0x32: 'lit2', 0x33: 'lit3', 0x34: 'lit4', 0x35: 'lit5',
        0x36: 'lit6', 0x37: 'lit7', 0x38: 'lit8', 0x39: 'lit9', 0x3a: 'lit10', 0x3b: 'lit11', 0x3c: 'lit12', 0x3d: 'lit13', 0x3e: 'lit14', 0x3f: 'lit15', 0x40: 'lit16',
        0x41: 'lit17', 0x42: 'lit18', 0x43: 'lit19', 0x44: 'lit20', 0x45: 'lit21', 0x46: 'lit22', 0x47: 'lit23', 0x48: 'lit24', 0x49: 'lit25', 0x4a: 'lit26', 0x4b: 'lit27',
        0x4c: 'lit28', 0x4d: 'lit29', 0x4e: 'lit30', 0x4f: 'lit31', 0x50: 'reg0', 0x51: 'reg1', 0x52: 'reg2', 0x53: 'reg3', 0x54: 'reg4', 0x55: 'reg5', 0x56: 'reg6',
        0x57: 'reg7', 0x58: 'reg8', 0x59: 'reg9', 0x5a: 'reg10', 0x5b: 'reg11', 0x5c: 'reg12', 0x5d: 'reg13', 0x5e: 'reg14', 0x5f: 'reg15', 0x60: 'reg16', 0x61: 'reg17',
        0x62: 'reg18', 0x63: 'reg19', 0x64: 'reg20', 0x65: 'reg21', 0x66: 'reg22', 0x67: 'reg23', 0x68: 'reg24', 0x69: 'reg25', 0x6a: 'reg26', 0x6b: 'reg27', 0x6c: 'reg28',
        0x6d: 'reg29', 0x6e: 'reg30', 0x6f: 'reg31', 0x70: 'breg0', 0x71: 'breg1', 0x72: 'breg2', 0x73: 'breg3', 0x74: 'breg4', 0x75: 'breg5', 0x76: 'breg6', 0x77: 'breg7',
        0x78: 'breg8', 0x79: 'breg9', 0x7a: 'breg10', 0x7b: 'breg11', 0x7c: 'breg12', 0x7d: 'breg13', 0x7e: 'breg14', 0x7f: 'breg15', 0x80: 'breg16', 0x81: 'breg17',
        0x82: 'breg18', 0x83: 'breg19', 0x84: 'breg20', 0x85: 'breg21', 0x86: 'breg22', 0x87: 'breg23', 0x88: 'breg24', 0x89: 'breg25', 0x8a: 'breg26', 0x8b: 'breg27',
        0x8c: 'breg28', 0x8d: 'breg29', 0x8e: 'breg30', 0x8f: 'breg31', 0x90: 'regx', 0x91: 'fbreg', 0x92: 'bregx', 0x93: 'piece', 0x94: 'deref_size', 0x95: 'xderef_size',
        0x96: 'nop', 0x97: 'push_object_address', 0x98: 'call2', 0x99: 'call4', 0x9a: 'call_ref', 0x9b: 'form_tls_address', 0x9c: 'call_frame_cfa', 0x9d: 'bit_piece',
        0x9e: 'implicit_value', 0x9f: 'stack_value', 0xa0: 'implicit_pointer', 0xa1: 'addrx', 0xa2: 'constx', 0xa3: 'entry_value', 0xa4: 'const_type', 0xa5: 'regval_type',
        0xa6: 'deref_type', 0xa7: 'xderef_type', 0xa8: 'convert', 0xa9: 'reinterpret', 0xe0: 'GNU_push_tls_address lo_user', 0xe1: 'HP_is_value', 0xe2: 'HP_fltconst4',
        0xe3: 'HP_fltconst8', 0xe4: 'HP_mod_range', 0xe5: 'HP_unmod_range', 0xe6: 'HP_tls', 0xe8: 'INTEL_bit_piece', 0xe9: 'LLVM_user', 0xed: 'WASM_location',
        0xee: 'WASM_location_int', 0xf0: 'APPLE_uninit GNU_uninit', 0xf1: 'GNU_encoded_addr', 0xf2: 'GNU_implicit_pointer', 0xf3: 'GNU_entry_value', 0xf4: 'GNU_const_type',
        0xf5: 'GNU_regval_type', 0xf6: 'GNU_deref_type', 0xf7: 'GNU_convert', 0xf8: 'PGI_omp_thread_num', 0xf9: 'GNU_reinterpret', 0xfa: 'GNU_parameter_ref',
        0xfb: 'GNU_addr_index', 0xfc: 'GNU_const_index', 0xfd: 'GNU_variable_value', 0xff: 'hi_user',
    },
    'ATE': {
        0x0: 'void', 0x1: 'address', 0x2: 'boolean', 0x3: 'complex_float', 0x4: 'float', 0x5: 'signed', 0x6: 'signed_char', 0x7: 'unsigned', 0x8: 'unsigned_char',
        0x9: 'imaginary_float', 0xa: 'packed_decimal', 0xb: 'numeric_string', 0xc: 'edited', 0xd: 'signed_fixed', 0xe: 'unsigned_fixed', 0xf: 'decimal_float', 0x10: 'UTF',
        0x11: 'UCS', 0x12: 'ASCII', 0x80: 'lo_user', 0x81: 'HP_complex_float', 0x82: 'HP_float128', 0x83: 'HP_complex_float128', 0x84: 'HP_floathpintel',
        0x85: 'HP_imaginary_float90', 0x86: 'HP_imaginary_float128', 0xff: 'hi_user',
    },
    'DS': {
        0x1: 'unsigned', 0x2: 'leading_overpunch', 0x3: 'trailing_overpunch', 0x4: 'leading_separate', 0x5: 'trailing_separate',
    },
    'END': {
        0x0: 'default', 0x1: 'big', 0x2: 'little', 0x40: 'lo_user', 0xff: 'hi_user',
    },
    'ACCESS': {
        0x1: 'public', 0x2: 'protected', 0x3: 'private',
    },
    'VIS': {
        0x1: 'local', 0x2: 'exported', 0x3: 'qualified',
    },
    'VIRTUALITY': {
        0x0: 'none', 0x1: 'virtual', 0x2: 'pure_virtual',
    },
    'ID': {
        0x0: 'case_sensitive', 0x1: 'up_case', 0x2: 'down_case', 0x3: 'case_insensitive',
    },
    'CC': {
        0x1: 'normal', 0x2: 'program', 0x3: 'nocall', 0x4: 'pass_by_reference', 0x5: 'pass_by_value', 0x40: 'GNU_renesas_sh lo_user', 0x41: 'GNU_borland_fastcall_i386',
        0xb0: 'BORLAND_safecall', 0xb1: 'BORLAND_stdcall', 0xb2: 'BORLAND_pascal', 0xb3: 'BORLAND_msfastcall', 0xb4: 'BORLAND_msreturn', 0xb5: 'BORLAND_thiscall',
        0xb6: 'BORLAND_fastcall', 0xc0: 'LLVM_vectorcall', 0xc1: 'LLVM_Win64', 0xc2: 'LLVM_X86_64SysV', 0xc3: 'LLVM_AAPCS', 0xc4: 'LLVM_AAPCS_VFP', 0xc5: 'LLVM_IntelOclBicc',
        0xc6: 'LLVM_SpirFunction', 0xc7: 'LLVM_OpenCLKernel', 0xc8: 'LLVM_Swift', 0xc9: 'LLVM_PreserveMost', 0xca: 'LLVM_PreserveAll', 0xcb: 'LLVM_X86RegCall',
        0xcc: 'LLVM_M68kRTD', 0xff: 'GDB_IBM_OpenCL hi_user',
    },
    'INL': {
        0x0: 'not_inlined', 0x1: 'inlined', 0x2: 'declared_not_inlined', 0x3: 'declared_inlined',
    },
    'ORD': {
        0x0: 'row_major', 0x1: 'col_major',
    },
    'DSC': {
        0x0: 'label', 0x1: 'range',
    },
    'LNS': {
        0x0: 'extended_op', 0x1: 'copy', 0x2: 'advance_pc', 0x3: 'advance_line', 0x4: 'set_file', 0x5: 'set_column', 0x6: 'negate_stmt', 0x7: 'set_basic_block',
        0x8: 'const_add_pc', 0x9: 'fixed_advance_pc', 0xa: 'set_prologue_end', 0xb: 'set_epilogue_begin', 0xc: 'set_isa',
    },
    'LNE': {
        0x1: 'end_sequence', 0x2: 'set_address', 0x3: 'define_file', 0x4: 'set_discriminator', 0x80: 'lo_user', 0x90: 'NVIDIA_inlined_call', 0x91: 'NVIDIA_set_function_name',
        0xff: 'hi_user',
    },
    'MACINFO': {
        0x1: 'define', 0x2: 'undef', 0x3: 'start_file', 0x4: 'end_file', 0xff: 'vendor_ext',
    },
    'EH_PE': {
        0x0: 'absptr', 0x1: 'uleb128', 0x2: 'udata2', 0x3: 'udata4', 0x4: 'udata8', 0x8: 'signed', 0x9: 'sleb128', 0xa: 'sdata2', 0xb: 'sdata4', 0xc: 'sdata8', 0x10: 'pcrel',
        0x20: 'textrel', 0x30: 'datarel', 0x40: 'funcrel', 0x50: 'aligned', 0x80: 'indirect', 0xff: 'omit',
    },
    'CFA': {
        0x0: 'extended nop', 0x1: 'set_loc', 0x2: 'advance_loc1', 0x3: 'advance_loc2', 0x4: 'advance_loc4', 0x5: 'offset_extended', 0x6: 'restore_extended', 0x7: 'undefined',
        0x8: 'same_value', 0x9: 'register', 0xa: 'remember_state', 0xb: 'restore_state', 0xc: 'def_cfa', 0xd: 'def_cfa_register', 0xe: 'def_cfa_offset',
        0xf: 'def_cfa_expression', 0x10: 'expression', 0x11: 'offset_extended_sf', 0x12: 'def_cfa_sf', 0x13: 'def_cfa_offset_sf', 0x14: 'val_offset', 0x15: 'val_offset_sf',
        0x16: 'val_expression', 0x1c: 'low_user', 0x1d: 'MIPS_advance_loc8', 0x2d: 'AARCH64_negate_ra_state GNU_window_save', 0x2e: 'GNU_args_size',
        0x2f: 'GNU_negative_offset_extended', 0x30: 'LLVM_def_aspace_cfa', 0x31: 'LLVM_def_aspace_cfa_sf', 0x3f: 'high_user', 0x40: 'advance_loc', 0x80: 'offset',
        0xc0: 'restore',
    },
    'LANG': {
        0x1: 'C89 PL', 0x2: 'C', 0x3: 'Ada83', 0x4: 'C_plus_plus', 0x5: 'Cobol74', 0x6: 'Cobol85', 0x7: 'Fortran77', 0x8: 'Fortran90', 0x9: 'Pascal83', 0xa: 'Modula2',
        0xb: 'Java', 0xc: 'C99', 0xd: 'Ada95', 0xe: 'Fortran95', 0xf: 'PLI', 0x10: 'ObjC', 0x11: 'ObjC_plus_plus', 0x12: 'UPC', 0x13: 'D', 0x14: 'Python', 0x15: 'OpenCL',
        0x16: 'Go', 0x17: 'Modula3', 0x18: 'Haskell', 0x19: 'C_plus_plus_03', 0x1a: 'C_plus_plus_11', 0x1b: 'OCaml', 0x1c: 'Rust', 0x1d: 'C11', 0x1e: 'Swift', 0x1f: 'Julia',
        0x20: 'Dylan', 0x21: 'C_plus_plus_14', 0x22: 'Fortran03', 0x23: 'Fortran08', 0x24: 'RenderScript', 0x25: 'BLISS', 0x26: 'Kotlin', 0x27: 'Zig', 0x28: 'Crystal',
        0x2a: 'C_plus_plus_17', 0x2b: 'C_plus_plus_20', 0x2c: 'C17', 0x2d: 'Fortran18', 0x2e: 'Ada2005', 0x2f: 'Ada2012', 0x30: 'HIP', 0x31: 'Assembly', 0x32: 'C_sharp',
        0x33: 'Mojo', 0x34: 'GLSL', 0x35: 'GLSL_ES', 0x36: 'HLSL', 0x37: 'OpenCL_CPP', 0x38: 'CPP_for_OpenCL', 0x39: 'SYCL', 0x40: 'Ruby', 0x41: 'Move', 0x42: 'Hylo',
        0x8000: 'lo_user', 0x8001: 'Mips_Assembler', 0x8e57: 'GOOGLE_RenderScript', 0xb000: 'BORLAND_Delphi', 0xffff: 'hi_user',
    },
    'DEFAULTED': {
        0x0: 'no', 0x1: 'in_class', 0x2: 'out_of_class',
    },
}
