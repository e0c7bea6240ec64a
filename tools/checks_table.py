"""Which source builds which check, and how many runs each tier makes."""
V1 = [{"name": "sim"}]
VN = [{"name": "sim", "weight": 2}, {"name": "release", "defs": ["NDEBUG"]}, {"name": "plain", "opt": "-O0"}]     # also with debug checks compiled out, and compiled without optimisation as the repository's own build does
CHECKS = {
    "C01": {"src": "array.cpp", "variants": VN, "real": "include/array.hpp compiled from /repo; element types are the harness's", "expect_probes": ["construct_failed","resize_failed","assign_failed","huge_size_tried","self_move"]},
    "C02": {"src": "array.cpp", "variants": VN, "real": "include/array.hpp compiled from /repo; element types are the harness's", "expect_probes": ["construct_failed","resize_failed","resizing_assign_failed","fill_failed","at_out_of_range","resize_with_own_element","equal_arrays"]},
    "C03": {"src": "shared_array.cpp", "variants": VN, "real": "SharedArray of include/array.hpp compiled from /repo; element types are the harness's", "expect_probes": ["construct_failed","last_copy_destroyed","last_copy_reassigned","self_assign","write_seen_by_copies","assigned_own_element"]},
    "C04": {"src": "lru.cpp", "variants": VN, "real": "include/lru_cache.hpp and macros.hpp compiled from /repo, on the real std::map; label and value types are the harness's", "expect_probes": ["evicted","get_absent","put_present","zero_capacity","long_history"]},
    "C05": {"src": "lru.cpp", "variants": VN, "real": "include/lru_cache.hpp and macros.hpp compiled from /repo, on the real std::map; label and value types are the harness's", "expect_probes": ["put_failed","put_failed_when_full","get_failed","put_of_reference_into_evicted_entry"]},
    "C06": {"src": "lazy.cpp", "variants": VN, "real": "include/lazy.hpp compiled from /repo; value types and generators are the harness's", "expect_probes": ["access_failed","copied_before_evaluation","failed_access_ran_generator","last_sharer_destroyed","nested_access","walked_lazy_list"]},
    "C07": {"src": "handle.cpp", "variants": VN, "real": "include/handle.hpp and writable.hpp compiled from /repo; interface and implementation classes are the harness's", "expect_probes": ["made_from_managed_pointer","bad_cast","mutable_access_failed","mutable_extract","extract_failed","two_refs","converted_to_base","derived_mutated","cast_back","walked_list_of_handles"]},
    "C09": {"src": "rng.cpp", "variants": VN, "quick_runs": 16000, "thorough_runs": 400000, "real": "include/randomiser.hpp compiled from /repo and the real std distributions and engine; entropy and clocks are simulated", "expect_probes": ["chi_square_tests","threaded_draws"]},
    "C10": {"src": "rng.cpp", "variants": VN, "quick_runs": 60000, "real": "include/randomiser.hpp compiled from /repo and the real std engine; entropy and clocks are simulated", "expect_probes": ["equal_readings","entropy_failure_reported","entropy_differs_clock_stands","entropy_stuck_clock_differs"]},
    "C11": {"src": "stopwatch.cpp", "variants": VN, "real": "include/stopwatch.hpp compiled from /repo; clocks are simulated", "expect_probes": ["restarted","wall_jump_back","wall_jump_forward"]},
    "C08": {"src": "threads.cpp", "variants": [{"name": "sim"}, {"name": "release", "defs": ["NDEBUG"]}, {"name": "plain", "opt": "-O0", "weight": 2}], "quick_runs": 80000, "thorough_runs": 2000000, "real": "array.hpp, container.hpp, lru_cache.hpp, lazy.hpp, handle.hpp, binary_word.hpp, stopwatch.hpp, string.hpp, stlio.hpp, tuple.hpp, writable.hpp compiled from /repo with every memory access instrumented; the C++ library's compiled part runs uninstrumented", "expect_probes": ["compared_with_alone","failure_compared_with_alone","constant_read","shared_handle_mutated","shared_handle_destroyed","shared_lazy_read","shared_lazy_destroyed"]},
    "C12": {"src": "read.cpp", "variants": VN, "real": "stlio.hpp compiled from /repo on the real std::istream; the stream buffer is the simulated device", "stub": "input device behind the stream, heap", "expect_probes": ["read_ok","partial_content","read_error_hit","truncated_input_hit","read_words","format_set_by_user","read_failed_by_text","read_failed_by_fault"]},
    "C13": {"src": "output.cpp", "variants": VN, "real": "output operators of container.hpp, array.hpp, stlio.hpp, tuple.hpp, writable.hpp, string.hpp compiled from /repo on the real std::ostream; the stream buffer is the simulated device", "stub": "output device behind the stream, heap", "expect_probes": ["print_cut_off","print_threw","device_full_hit","short_write_hit","write_throw_hit","roundtrip","roundtrip_nested","to_string","default_delimiters"]},
    "C14": {"src": "word.cpp", "variants": VN, "real": "binary_word.hpp compiled from /repo on the real std::vector<bool> and streams", "stub": "devices behind the streams, heap", "expect_probes": ["append_self","append_failed","word_ended_by_eof","roundtrip_empty","is_subword","read_error_reported","make_failed"]},
    "C15": {"src": "list.cpp", "variants": VN, "real": "List and LinkedList of container.hpp compiled from /repo; element types are the harness's", "expect_probes": ["append_self","append_own_item","partly_extended","linked_append_self","not_unique","make_failed","large_list"]},
    "C16": {"src": "set.cpp", "variants": VN, "real": "Set of container.hpp compiled from /repo; element types are the harness's", "expect_probes": ["with_itself","remove_own","partly_modified","proper_subset","disjoint","make_failed","large_sets"]},
    "C17": {"src": "map.cpp", "variants": VN, "real": "Map of container.hpp compiled from /repo; element types are the harness's", "expect_probes": ["absent_refused","found","adjoin_clash","adjoin_self","insert_own","insert_present","partly_modified","converted","large_maps"]},
    "C18": {"src": "macros.cpp", "variants": [{"name": "debug", "weight": 2}, {"name": "release", "defs": ["NDEBUG"]}, {"name": "plain", "opt": "-O0"}], "real": "macros.hpp compiled from /repo in both build configurations, on the real std::cerr", "stub": "device behind standard error and output, heap", "expect_probes": ["violated","violated_with_failure","satisfied","compiled_out","once_only_first","once_only_silent","stderr_failing","line_written","once_only_among_threads","warned_from_several_threads"]},
    "C19": {"src": "testfw.cpp", "variants": VN, "real": "test.hpp and macros.hpp compiled from /repo, on the real std::cout and std::cerr", "stub": "devices behind standard output and error, heap; the functions under test are the harness's", "expect_probes": ["case_threw","case_after_throwing_case","check_failed","check_left_by_exception","check_passed","many_failures","stderr_working","stderr_failing","stdout_failing"]},
    "C20": {"src": "trace.cpp", "variants": [{"name": "enabled", "defs": ["ENABLE_STACK_TRACE"], "weight": 2}, {"name": "disabled"}, {"name": "plain", "opt": "-O0", "defs": ["ENABLE_STACK_TRACE"]}], "repo_srcs": ["src/stack_trace.cpp"], "wrap": ["backtrace", "backtrace_symbols", "dladdr", "__cxa_demangle", "malloc", "free", "calloc", "realloc"], "real": "src/stack_trace.cpp compiled from /repo in both build configurations, on the real std::cerr; the real unwinder, symbol lookup and demangler in part of the runs", "stub": "in the other runs simulated frames and symbol lookup; C allocator; device behind standard error", "expect_probes": ["one_line_per_frame","names_checked","deeper_than_the_limit","frame_without_name","lookup_failed","demangling_failed","disabled","stderr_failing","traced_from_several_threads"]},
    "C21": {"src": "variant.cpp", "variants": VN, "real": "variant.hpp and variant.inl.hpp compiled from /repo; alternatives and visitors are the harness's", "expect_probes": ["visited","visit_failed","nested_visit","visited_common","visited_in_threads"]},
    "C22": {"src": "iter.cpp", "variants": VN, "real": "iterator.hpp and range.hpp compiled from /repo; the positions the iterators model are the harness's", "expect_probes": ["moved","moved_far","differences","compared","compared_in_threads","dereferenced","post_incremented","standard_algorithm","walked","range","pair_iterator","common","failed"]},
    "C23": {"src": "tuple.cpp", "variants": VN, "real": "tuple.hpp and complement of array.hpp compiled from /repo, on the real std::tuple, std::pair and std::array; the components are the harness's", "expect_probes": ["complement","large_complement","complement_failed","access","access_in_threads","lpair","ltuple","partly_assigned","common"]},
}
DEFAULT_RUNS = 120000
