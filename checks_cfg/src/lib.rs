// Written by tools/gen_aliases.py.
/// Calls `$f::<T>$args` for the types of every build.
#[macro_export]
macro_rules! for_builds {
    ($f:ident $args:tt) => {{
        checks::for_types_of!(fixnum $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_nochk $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_nochk $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_nochk $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_nochk $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_nostd $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_nostd $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_nostd $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_nostd $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_nostd_nochk $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_nostd_nochk $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_nostd_nochk $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_nostd_nochk $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_only16 $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_only32 $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_only64 $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_only128 $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_std16 $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_std32 $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_std64 $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_std128 $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_pair64 $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_pair64 $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_pair128 $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_pair128 $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_every $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_every $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_every $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_every $f $args i128: U0 U9 U19 U38);
        checks::for_types_of!(fixnum_every_nostd $f $args i16: U0 U2 U4);
        checks::for_types_of!(fixnum_every_nostd $f $args i32: U0 U5 U9);
        checks::for_types_of!(fixnum_every_nostd $f $args i64: U0 U9 U18);
        checks::for_types_of!(fixnum_every_nostd $f $args i128: U0 U9 U19 U38);
    }};
}
