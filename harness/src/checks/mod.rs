pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod robust;
pub mod smoke;

pub fn dispatch(id: &str, thorough: bool) -> Option<i32> {
    Some(match id {
        "C01" => c01::run(thorough),
        "C02" => c02::run(thorough),
        "C03" => c03::run(thorough),
        "C04" => c04::run(thorough),
        "C06" => c06::run(thorough),
        "C07" => c07::run(thorough),
        "C08" => c08::run(thorough),
        "C09" => c09::run(thorough),
        "C10" => c10::run(thorough),
        "C11" => c11::run(thorough),
        "C12" => c12::run(thorough),
        "C13" => c13::run(thorough),
        "C14" => c14::run(thorough),
        "C15" => c14::run15(thorough),
        "C16" => c16::run(thorough),
        "C17" => c17::run(thorough),
        "C18" => c18::run(thorough),
        "C19" => c19::run(thorough),
        "C20" => c20::run(thorough),
        "C21" => c21::run(thorough),
        "C22" => c22::run(thorough),
        "C23" => c23::run(thorough),
        "C24" => c24::run(thorough),
        "C25" => c25::run(thorough),
        "C26" => c26::run(thorough),
        "C27" => c27::run(thorough),
        "C28" => c28::run(thorough),
        "smoke" => smoke::run(),
        _ => return None,
    })
}
