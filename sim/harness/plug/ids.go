//go:build simruntime

package plug

// ids of the functions as the generator names them.
var ids = map[string]string{
	"echo":     "simp_echo_string_string",
	"tick":     "simp_tick_string_int64",
	"sum":      "simp_sum_repeated int64_int64",
	"parts":    "simp_parts_string_repeated string",
	"half":     "simp_half_double_double",
	"not":      "simp_not_bool_string_bool",
	"make":     "simp_make_string_simp_Obj",
	"merge":    "simp_merge_repeated simp_Obj_repeated simp_Obj",
	"describe": "simp_Obj_describe_simp_Obj_string_string",
}
