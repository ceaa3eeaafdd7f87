// Written by tools/gen_aliases.py.
bind!(fixnum_nochk as nochk: i16 i64, i32 i128, i64 i128, i128 Big; ints: );
bind!(fixnum_nostd as nostd: i16 i64, i32 i128, i64 i128, i128 Big; ints: );
bind!(fixnum_nostd_nochk as nostd_nochk: i16 i64, i32 i128, i64 i128, i128 Big; ints: );
bind!(fixnum_only16 as only16: i16 i64; ints: );
bind!(fixnum_only32 as only32: i32 i128; ints: );
bind!(fixnum_only64 as only64: i64 i128; ints: );
bind!(fixnum_only128 as only128: i128 Big; ints: );
bind!(fixnum_std16 as std16: i16 i64; ints: );
bind!(fixnum_std32 as std32: i32 i128; ints: );
bind!(fixnum_std64 as std64: i64 i128; ints: );
bind!(fixnum_std128 as std128: i128 Big; ints: );
bind!(fixnum_pair64 as pair64: i16 i64, i64 i128; ints: );
bind!(fixnum_pair128 as pair128: i32 i128, i128 Big; ints: );
bind!(fixnum_every as every: i16 i64, i32 i128, i64 i128, i128 Big; ints: );
bind!(fixnum_every_nostd as every_nostd: i16 i64, i32 i128, i64 i128, i128 Big; ints: );
