pub type Entry = (&'static str, extern "C" fn(u64, u64, u64, u64));
pub type Table = &'static [Entry];

macro_rules! entries {
    ($($(#[$m:meta])* $name:ident($($a:ident),*) $body:block)*) => {
        $(
            #[no_mangle]
            #[allow(unused_variables)]
            pub extern "C" fn $name(a0: u64, a1: u64, a2: u64, a3: u64) {
                let all = [a0, a1, a2, a3];
                let mut i = 0;
                $(let $a = all[i]; i += 1;)*
                let _ = i;
                $body
            }
        )*
        pub static ENTRIES: &[crate::entry::Entry] = &[$((stringify!($name), $name)),*];
    };
}
