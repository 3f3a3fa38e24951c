//! Stand-in for the `bitfield` crate: the single-bit form of the macro.
#[macro_export]
macro_rules! bitfield {
    ($(#[$m:meta])* pub struct $name:ident($t:ty); impl Debug; $($(#[$fm:meta])* pub $get:ident, $set:ident: $bit:expr;)*) => {
        $(#[$m])*
        pub struct $name(pub $t);
        impl $name {
            $(pub fn $get(&self) -> bool { (self.0 >> $bit) & 1 != 0 }
              pub fn $set(&mut self, v: bool) { if v { self.0 |= 1 << $bit } else { self.0 &= !(1 << $bit) } })*
        }
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_struct(stringify!($name))$(.field(stringify!($get), &self.$get()))*.finish()
            }
        }
    };
}
