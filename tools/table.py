HOOKS = {"guard": "none (no hooks in /repo)", "enable": "not needed: the checks read /repo's sources as they are", "source_commits": []}
NOTES = "See DESIGN.md. Every check extracts the current sources of /repo, generates proof obligations with CBMC and discharges them; counterexamples are replayed on the same code compiled natively."
STD = "All obligations discharged for all inputs of the stated kinds; assumes allocation succeeds, sequential execution, assumed contracts listed in the evidence file."
VMF = ["core/kos_vm.c", "core/kos_utils.c", "core/kos_entity.c"]

prop("P01", "Arithmetic operators compute the exact documented result",
     "For every pair of numbers, + - * on two integers gives the mathematical result modulo 2^64 as a signed 64-bit integer, and / and % on two integers give the truncated quotient and its remainder. When either operand is a float the integer is converted to double and the result is the IEEE double operation (% is C fmod). Division or remainder by zero, and the smallest integer divided by -1, raise an exception instead of giving a value.",
     ["inputs"], "all pairs of 64-bit integers (inline or boxed representation) and all doubles including NaN, infinities, zeroes and subnormals",
     "2^128 operand pairs times the two internal integer representations; tests sample a few dozen and miss representation boundaries such as +-2^62 and INT64_MIN.",
     VMF, [("instructions ADD SUB MUL DIV MOD", "core/kos_vm.c execute()"), ("integer boxing", "core/kos_entity.c KOS_new_int")], note=STD)
prop("P02", "Bitwise and shift operators and conversion of numbers to integers are exact",
     "& | ^ ~ << >> >>> act on 64-bit two's complement integers; a shift by a negative count shifts the other way and counts of 64 or more give 0, or all sign bits for an arithmetic right shift of a negative number. A float operand is first rounded towards minus infinity. A float which is NaN, infinite or outside the range of 64-bit integers raises an exception.",
     ["inputs"], "all pairs of integers (both representations) and floats, all shift counts",
     "Shift counts and signs interact (64 counts, both directions, sign, representation), and float conversion has edge cases at 2^63, NaN and negative fractions which no example set covers.",
     VMF, [("instructions SHL SHR SHRU AND OR XOR NOT", "core/kos_vm.c execute()"), ("conversion to integer", "core/kos_utils.c KOS_get_integer")], note=STD)
prop("P03", "Comparison is the mathematical order and agrees in both directions",
     "For integers == != < <= > >= give the exact order whatever their internal representation; a comparison involving a float compares as doubles, with NaN unordered and unequal to everything including itself. false is less than true, and values of different types (other than numbers) are never equal and are ordered by type. Swapping the operands gives the opposite order.",
     ["inputs"], "all pairs of numbers of any representation, booleans, void, and pairs of values of different types",
     "Ordering must be consistent for all pairs at once, including mixed inline and boxed integers and NaN; tests check a few pairs.",
     ["core/kos_utils.c", "core/kos_vm.c"], [("value comparison", "core/kos_utils.c KOS_compare, compare_int, compare_float"), ("instructions CMP_EQ CMP_NE CMP_LT CMP_LE", "core/kos_vm.c execute()")], note=STD)
prop("P05", "Conditions follow truthiness",
     "void, false, the integer zero in any representation and the floats 0.0 and -0.0 are false in a condition; every other value, including NaN and empty containers, is true. A conditional jump, forward or backward, is taken exactly when its condition says so.",
     ["inputs"], "all values of every type, both kinds of conditional jump, both directions",
     "All 2^64 integers and doubles in every representation decide control flow; tests use a few literals.",
     ["core/kos_utils.c", "core/kos_vm.c", "core/kos_misc.c"], [("truthiness", "core/kos_utils.c kos_is_truthy"), ("instructions JUMP_COND JUMP_NOT_COND", "core/kos_vm.c execute()")], note=STD)
prop("P06", "Numeric operators on non-numbers raise an exception",
     "Applying - * / % & | ^ ~ << >> >>> to an operand which is not a number, and + to operands which are neither numbers nor strings, raises an exception and gives no result.",
     ["inputs"], "every numeric operator with a void, boolean, array, object or function operand on either side, the other operand any number",
     "The operator by operand-type matrix is large and each cell has its own code path in the interpreter loop.",
     ["core/kos_vm.c"], [("type dispatch in arithmetic instructions", "core/kos_vm.c execute()")], note=STD)
prop("P08", "UTF-8 text is converted without loss and malformed text is refused",
     "Encoding any sequence of code points as UTF-8 and decoding it gives back the same code points, and the encoding is the standard one with exactly the announced size. Any byte sequence is either accepted and decoded to exactly its code points, whatever the width of the destination, or refused when truncated, overlong or otherwise malformed; escape sequences in string literals denote exactly their documented code points.",
     ["inputs"], "every sequence of up to 3 code points and every byte sequence of up to 6 bytes, at every element width, aligned and unaligned",
     "The decoder is a hand-written state machine over lead and continuation bytes with an ASCII fast path; tests contain a few dozen strings.",
     ["core/kos_utf8.c", "core/kos_utf8_internal.h"], [("encoding", "core/kos_utf8.c KOS_utf8_encode_8/16/32, KOS_utf8_calc_buf_size_*"), ("decoding", "core/kos_utf8.c KOS_utf8_get_len, KOS_utf8_decode_8/16/32")],
     note="Bounded: all byte sequences up to the stated length.")
prop("P04", "Constant folding agrees with execution",
     "When the optimizer replaces an operator applied to constants by its value, the value is numerically equal to what the virtual machine computes for the same operands, and has the same type. The optimizer refuses or leaves alone every operation which raises an exception. When the optimizer selects a branch, a loop, or an operand of ! && || ?: because a condition is constant, it selects the one which execution would; concatenation and typeof of constants give the string execution would give.",
     ["inputs"], "all pairs of integer and float constants, all constant conditions",
     "Folding duplicates the arithmetic of the virtual machine in different code; a divergence only shows for particular operand values (shift counts, NaN, range limits), which tests sample sparsely.",
     ["core/kos_compiler_optim.c"], [("operator folding", "core/kos_compiler_optim.c optimize_binary_op, optimize_unary_op"), ("constant conditions", "core/kos_compiler_optim.c kos_node_is_truthy, kos_node_is_falsy, get_nonzero, if_stmt, while_stmt")],
     note=STD)
prop("P10", "Arrays hold exactly the sequence their operations define",
     "Reading, writing, compare-and-swap, resizing, slicing, inserting or replacing a range (also from the same array), pushing, popping, filling and reserving leave an array with exactly the elements, in the order and number, which the operation defines; other arrays involved keep theirs. Negative indices count from the end, range ends are clamped, and reading, writing or compare-and-swap with an index out of range, popping an empty array, or any change to a read-only array raises an exception and changes nothing. Elements added by a resize are void, never leftovers.",
     ["inputs", "history"], "every element index and every pair of range ends (in range, negative, one-off, 2^31 and 2^32 wrap-arounds, 64-bit extremes) on arrays of up to 5 elements, whatever operations produced them",
     "Range ends, overlaps within one array and storage growth combine into hundreds of distinct situations per operation; tests exercise a handful of them.",
     ["core/kos_array.c", "core/kos_threads.c", "core/kos_utils.c"], [("array operations", "core/kos_array.c KOS_array_read/write/cas/resize/slice/insert/push/pop/fill/reserve"), ("range clamping", "core/kos_utils.c KOS_fix_index"), ("overlapping moves", "core/kos_threads.c kos_atomic_move_ptr")],
     note="Index clamping is proved for all values; the array operations are bounded: arrays of up to 5 elements, sequential use.")
prop("P11", "Buffers hold exactly the bytes their operations define and every access stays inside the storage",
     "For buffers of any size, resizing, growing, filling, copying a range (also within one buffer) and slicing give a buffer of exactly the requested size whose bytes are the ones which the operation defines, keep all other bytes, never read or write outside of the storage and raise an exception instead when the size exceeds the limit or the buffer is read-only. Negative range ends count from the end and out of range ones are clamped, for every 64-bit value.",
     ["inputs", "history"], "every size and capacity up to the limit, every 64-bit value of each range end, any previous contents, same-buffer copies, read-only and externally stored buffers",
     "Sizes, capacities and range ends are 32- and 64-bit quantities whose sums wrap around; tests use small buffers and never come near the limits.",
     ["core/kos_buffer.c", "core/kos_utils.c"], [("buffer operations", "core/kos_buffer.c KOS_new_buffer, KOS_buffer_reserve/resize/make_room/fill/copy/slice/data"), ("range clamping", "core/kos_utils.c KOS_fix_index")],
     note="Proved for every size with ghost storage; memcpy/memmove/memset by assumed standard contracts; a bounded unit repeats it with real contents.")
prop("P09", "Strings are sequences of code points whatever their internal representation",
     "Comparing, slicing, indexing, concatenating, repeating, reversing, searching, changing case and hashing strings give the result defined on their sequences of code points. The result does not depend on whether characters are stored in 1, 2 or 4 bytes, inline or as a view of another string, or how the storage is aligned. Strings which compare equal have equal hashes, and comparison is the lexicographic order of code points. Negative indices count from the end, out of range ones are clamped, and no operation accesses memory outside of a string.",
     ["inputs"], "strings of up to 4 arbitrary code points (longer for comparison), all combinations of element widths, inline, constant and referenced storage, all 64-bit indices",
     "Each operation has separate code for nine pairs of widths and for aligned blocks; tests mostly use short one-byte strings.",
     ["core/kos_string.c"], [("string operations", "core/kos_string.c KOS_string_compare, KOS_string_compare_slice, KOS_string_slice, KOS_string_get_char, KOS_string_add_n, KOS_string_find, KOS_string_scan, KOS_string_reverse, KOS_string_repeat, KOS_string_lowercase, KOS_string_uppercase, KOS_string_get_hash")],
     note="Bounded: strings of up to the stated number of characters; every code point.")
