"""Build attributes of the ABI for the ARM architecture: kind, name and meanings per tag."""

# tag: (name, kind, {value: meaning}); kinds: u integer, s string, c integer and string, i 32-bit integer
TAGS = {
    4: ('Tag_CPU_raw_name', 's', {}),
    5: ('Tag_CPU_name', 's', {}),
    6: ('Tag_CPU_arch', 'u', {
        0: 'Pre-v4',
        1: 'ARM v4',
        2: 'ARM v4T',
        3: 'ARM v5T',
        4: 'ARM v5TE',
        5: 'ARM v5TEJ',
        6: 'ARM v6',
        7: 'ARM v6KZ',
        8: 'ARM v6T2',
        9: 'ARM v6K',
        10: 'ARM v7',
        11: 'ARM v6-M',
        12: 'ARM v6S-M',
        13: 'ARM v7E-M',
        14: 'ARM v8',
    }),
    7: ('Tag_CPU_arch_profile', 'u', {
        0: 'Architecture profile is not applicable',
        65: 'The application profile',
        77: 'The microcontroller profile',
        82: 'The real-time profile',
        83: 'Application or real-time profile',
    }),
    8: ('Tag_ARM_ISA_use', 'u', {
        0: 'The user did not permit this entity to use ARM instructions',
        1: 'The user intended that this entity could use ARM instructions',
    }),
    9: ('Tag_THUMB_ISA_use', 'u', {
        0: 'The user did not permit this entity to use Thumb instructions',
        1: 'The user permitted this entity to use 16-bit Thumb instructions (including BL)',
        2: '32-bit Thumb instructions were permitted',
    }),
    10: ('Tag_FP_arch', 'u', {
        0: 'The user did not permit this entity to use instructions requiring FP hardware',
        1: 'The user permitted use of instructions from v1 of the floating point (FP) ISA',
        2: 'Use of the v2 FP ISA was permitted (implies use of the v1 FP ISA)',
        3: 'Use of the v3 FP ISA was permitted (implies use of the v2 FP ISA)',
        4: 'Use of the v3 FP ISA was permitted, but only citing registers D0-D15, S0-S31',
        5: 'Use of the v4 FP ISA was permitted (implies use of the non-vector v3 FP ISA)',
        6: 'Use of the v4 FP ISA was permitted, but only citing registers D0-D15, S0-S31',
        7: 'Use of the ARM v8-A FP ISA was permitted',
        8: 'Use of the ARM v8-A FP ISA was permitted, but only citing registers D0-D15, S0-S31',
    }),
    11: ('Tag_WMMX_arch', 'u', {
        0: 'The user did not permit this entity to use WMMX',
        1: 'The user permitted this entity to use WMMX v1',
        2: 'The user permitted this entity to use WMMX v2',
    }),
    12: ('Tag_Advanced_SIMD_arch', 'u', {
        0: 'The user did not permit this entity to use the Advanced SIMD Architecture (Neon)',
        1: 'Use of the Advanced SIMDv1 Architecture (Neon) was permitted',
        2: 'Use of Advanced SIMDv2 Architecture (Neon) (with half-precision floating-point and fused MAC operations) was permitted',
        3: 'Use of the ARM v8-A Advanced SIMD Architecture (Neon) was permitted',
        4: 'Use of the ARM v8.1-A Advanced SIMD Architecture (Neon) was permitted',
    }),
    13: ('Tag_PCS_config', 'u', {
        0: 'No standard configuration used, or no information recorded',
        1: 'Bare platform configuration',
        2: 'Linux application configuration',
        3: 'Linux DSO configuration',
        4: 'Palm OS 2004 configuration',
        5: 'Reserved to future Palm OS configuration',
        6: 'Symbian OS 2004 configuration',
        7: 'Reserved to future Symbian OS configuration',
    }),
    14: ('Tag_ABI_PCS_R9_use', 'u', {
        0: 'R9 used as V6 (just another callee-saved register, implied by omitting the tag)',
        1: 'R9 used as SB, a global Static Base register',
        2: 'R9 used as a Thread Local Storage (TLS) pointer',
        3: 'R9 not used at all by code associated with the attributed entity',
    }),
    15: ('Tag_ABI_PCS_RW_data', 'u', {
        0: 'RW static data was permitted to be addressed absolutely',
        1: 'RW static data was only permitted to be addressed PC-relative',
        2: 'RW static data was only permitted to be addressed SB-relative',
        3: 'The user did not permit this entity to use RW static data',
    }),
    16: ('Tag_ABI_PCS_RO_data', 'u', {
        0: 'RO static data was permitted to be addressed absolutely',
        1: 'RO static data was only permitted to be addressed PC-relative',
        2: 'The user did not permit this entity to use RO static data',
    }),
    17: ('Tag_ABI_PCS_GOT_use', 'u', {
        0: 'The user did not permit this entity to import static data',
        1: 'The user permitted this entity to address imported data directly',
        2: 'The user permitted this entity to address imported data indirectly (e.g. via a GOT)',
    }),
    18: ('Tag_ABI_PCS_wchar_t', 'u', {
        0: 'The user prohibited the use of wchar_t when building this entity',
        2: 'The user intended the size of wchar_t to be 2',
        4: 'The user intended the size of wchar_t to be 4',
    }),
    19: ('Tag_ABI_FP_rounding', 'u', {
        0: 'The user intended this code to use the IEEE 754 round to nearest rounding mode',
        1: 'The user permitted this code to choose the IEEE 754 rounding mode at run time',
    }),
    20: ('Tag_ABI_FP_denormal', 'u', {
        0: 'The user built this code knowing that denormal numbers might be flushed to (+) zero',
        1: 'The user permitted this code to depend on IEEE 754 denormal numbers',
        2: 'The user permitted this code to depend on the sign of a flushed-to-zero number being preserved in the sign of 0',
    }),
    21: ('Tag_ABI_FP_exceptions', 'u', {
        0: 'The user intended that this code should not check for inexact results',
        1: 'The user permitted this code to check the IEEE 754 inexact exception',
    }),
    22: ('Tag_ABI_FP_user_exceptions', 'u', {
        0: 'The user intended that this code should not enable or use IEEE user exceptions',
        1: 'The user permitted this code to enables and use IEEE 754 user exceptions',
    }),
    23: ('Tag_ABI_FP_number_model', 'u', {
        0: 'The user intended that this code should not use floating point numbers',
        1: 'The user permitted this code to use IEEE 754 format normal numbers only',
        2: 'The user permitted numbers, infinities, and one quiet NaN (see [RTABI])',
        3: 'The user permitted this code to use all the IEEE 754-defined FP encodings',
    }),
    24: ('Tag_ABI_align_needed', 'u', {
        0: 'The user did not permit code to depend the alignment of 8-byte data or data with extended (> 8-byte) alignment',
        1: 'Code was permitted to depend on the 8-byte alignment of 8-byte data items',
        2: 'Code was permitted to depend on the 4-byte alignment of 8-byte data items',
        3: 'Reserved',
    }),
    25: ('Tag_ABI_align8_preserved', 'u', {
        0: 'The user did not require code to preserve 8-byte alignment of 8-byte data objects',
        1: 'Code was required to preserve 8-byte alignment of 8-byte data objects',
        2: 'Code was required to preserve 8-byte alignment of 8-byte data objects and to ensure (SP MOD 8) = 0 at all instruction boundaries (not just at function calls)',
        3: 'Reserved',
    }),
    26: ('Tag_ABI_enum_size', 'u', {
        0: 'The user prohibited the use of enums when building this entity',
        1: 'Enum values occupy the smallest container big enough to hold all their values',
        2: 'The user intended Enum containers to be 32-bit',
        3: 'The user intended that every enumeration visible across an ABI-complying interface contains a value needing 32 bits to encode it; other enums can be containerized',
    }),
    27: ('Tag_ABI_HardFP_use', 'u', {
        0: 'The user intended that FP use should be implied by Tag_FP_arch',
        1: 'The user intended this code to execute on the single-precision variant derived from Tag_FP_arch',
        2: 'Reserved',
        3: 'The user intended that FP use should be implied by Tag_FP_arch (Note: This is a deprecated duplicate of the default encoded by 0)',
    }),
    28: ('Tag_ABI_VFP_args', 'u', {
        0: 'The user intended FP parameter/result passing to conform to AAPCS, base variant',
        1: 'The user intended FP parameter/result passing to conform to AAPCS, VFP variant',
        2: 'The user intended FP parameter/result passing to conform to tool chain-specific conventions',
        3: 'Code is compatible with both the base and VFP variants; the user did not permit non-variadic functions to pass FP parameters/results',
    }),
    29: ('Tag_ABI_WMMX_args', 'u', {
        0: 'The user intended WMMX parameter/result passing conform to the AAPCS, base variant',
        1: 'The user intended WMMX parameter/result passing conform to Intel\x92s WMMX conventions',
        2: 'The user intended WMMX parameter/result passing conforms to tool chain-specific conventions',
    }),
    30: ('Tag_ABI_optimization_goals', 'u', {
        0: 'No particular optimization goals, or no information recorded',
        1: 'Optimized for speed, but small size and good debug illusion preserved',
        2: 'Optimized aggressively for speed, small size and debug illusion sacrificed',
        3: 'Optimized for small size, but speed and debugging illusion preserved',
        4: 'Optimized aggressively for small size, speed and debug illusion sacrificed',
        5: 'Optimized for good debugging, but speed and small size preserved',
        6: 'Optimized for best debugging illusion, speed and small size sacrificed',
    }),
    31: ('Tag_ABI_FP_optimization_goals', 'u', {
        0: 'No particular FP optimization goals, or no information recorded',
        1: 'Optimized for speed, but small size and good accuracy preserved',
        2: 'Optimized aggressively for speed, small size and accuracy sacrificed',
        3: 'Optimized for small size, but speed and accuracy preserved',
        4: 'Optimized aggressively for small size, speed and accuracy sacrificed',
        5: 'Optimized for accuracy, but speed and small size preserved',
        6: 'Optimized for best accuracy, speed and small size sacrificed',
    }),
    32: ('Tag_compatibility', 'c', {}),
    34: ('Tag_CPU_unaligned_access', 'u', {
        0: 'The user did not intend this entity to make unaligned data accesses',
        1: 'The user intended that this entity might make v6-style unaligned data accesses',
    }),
    36: ('Tag_FP_HP_extension (was Tag_VFP_HP_extension)', 'u', {
        0: 'The user intended half-precision floating point instructions may be used if they exist in the available FP and ASIMD instruction sets as indicated by Tag_FP_arch and Tag_ASIMD_arch',
        1: 'Use of the optional half-precision extension to VFPv3/Advanced SIMDv1 was permitted',
    }),
    38: ('Tag_ABI_FP_16bit_format', 'u', {
        0: 'The user intended that this entity should not use 16-bit floating point numbers',
        1: 'Use of IEEE 754 (draft, November 2006) format 16-bit FP numbers was permitted',
        2: 'Use of VFPv3/Advanced SIMD \x93alternative format\x94 16-bit FP numbers was permitted',
    }),
    42: ('Tag_MPextension_use', 'u', {
        0: 'No use of ARM v7 MP extension was permitted, or no information available.',
        1: 'Use of the ARM v7 MP extension was permitted.',
    }),
    44: ('Tag_DIV_use', 'u', {
        0: 'The user intended divide instructions may be used if they exist, or no explicit information recorded. This code was permitted to use SDIV and UDIV if the instructions are guaranteed present in the architecture, as indicated by Tag_CPU_arch and Tag_CPU_arch_profile.',
        1: 'This code was explicitly not permitted to use SDIV or UDIV.',
        2: 'This code was permitted to use SDIV and UDIV in the ARM and Thumb ISAs; the instructions are present as an optional architectural extension above the base architecture implied by Tag_CPU_arch and Tag_CPU_arch_profile.',
    }),
    64: ('Tag_nodefaults', 'u', {}),
    65: ('Tag_also_compatible_with', 's', {}),
    66: ('Tag_T2EE_use', 'u', {
        0: 'No use of T2EE extension was permitted, or no information is available',
        1: 'Use of the T2EE extension was permitted',
    }),
    67: ('Tag_conformance', 's', {}),
    68: ('Tag_Virtualization_use', 'u', {
        0: 'No use of any virtualization extension was permitted, or no information available',
        1: 'Use of the TrustZone extension was permitted',
        2: 'Use of the virtualization extensions (HVC, ERET) were permitted',
        3: 'Use of TrustZone and virtualization extensions were permitted',
    }),
    70: ('Tag_MPextension_use', 'u', {
        0: 'No use of ARM v7 MP extension was permitted, or no information available.',
        1: 'Use of the ARM v7 MP extension was permitted.',
    }),
}
