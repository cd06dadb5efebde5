//! The WebAssembly entry point, with an interface that needs no JavaScript glue: space(n) gives room for a text, ask(n) parses it, answer() says where the answer is.
static mut TEXT: Vec<u8> = Vec::new();
static mut ANSWER: String = String::new();

#[no_mangle]
pub extern "C" fn space(n: usize) -> *mut u8 {
    unsafe {
        let text = &mut *(&raw mut TEXT);
        *text = vec![0; n];
        text.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn ask() -> usize {
    unsafe {
        let answer = &mut *(&raw mut ANSWER);
        *answer = String::new();
        let text = std::mem::take(&mut *(&raw mut TEXT));
        *answer = postgresql_cst_parser_wasm::parse_sql(std::str::from_utf8_unchecked(&text));
        answer.len()
    }
}
#[no_mangle]
pub extern "C" fn answer() -> *const u8 {
    unsafe {
        let answer = &*(&raw const ANSWER);
        answer.as_ptr()
    }
}
