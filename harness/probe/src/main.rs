fn seal<S: rgbcore::RgbSeal>() {}
fn def<D: rgbcore::RgbSealDef>() {}
fn main() {
    seal::<bp::seals::TxoSeal>();
    def::<bp::seals::WTxoSeal>();
    println!("bitcoin seals available");
}
