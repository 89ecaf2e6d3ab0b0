use crate::mon::Property;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c24;
mod c06;
mod c07;
mod c08;
mod c15;
mod c20;
mod c18;
mod c16;
mod c17;
mod c19;
mod c23;
mod c22;
mod c21;
mod polyhist;
pub fn get(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => c01::property(),
        "C02" => c02::property(),
        "C03" => c03::property(),
        "C04" => c04::property(),
        "C05" => c05::property(),
        "C09" => c09::property(),
        "C10" => c10::property(),
        "C11" => c11::property(),
        "C12" => c12::property(),
        "C13" => c13::property(),
        "C14" => c14::property(),
        "C24" => c24::property(),
        "C06" => c06::property(),
        "C07" => c07::property(),
        "C08" => c08::property(),
        "C15" => c15::property(),
        "C20" => c20::property(),
        "C18" => c18::property(),
        "C16" => c16::property(),
        "C17" => c17::property(),
        "C19" => c19::property(),
        "C23" => c23::property(),
        "C22" => c22::property(),
        "C21" => c21::property(),
        _ => return None,
    })
}
