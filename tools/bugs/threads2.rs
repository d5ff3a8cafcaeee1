// Eight writers in eight threads.
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::{sim_hooks, IoTDBValue, Schema, TSDataType};
fn write(k: i64) {
    sim_hooks::set_knobs(sim_hooks::Knobs {
        chunk_group_size_threshold: None,
        first_mem_check: None,
        page_size_threshold: None,
        max_points_in_page: Some(5),
        first_page_check: None,
        minimum_page_check: None,
    });
    let name: &'static str = Box::leak(format!("{}.bin", k).into_boxed_str());
    let s = Schema::simple("d", "s", TSDataType::INT64, TSEncoding::PLAIN, CompressionType::SNAPPY);
    let mut w = TsFileWriter::new(name, s, Default::default()).unwrap();
    for i in 0..20000 {
        w.write("d", "s", i, IoTDBValue::LONG(i * k)).unwrap();
    }
    w.close().ok();
}
fn main() {
    let t: Vec<_> = (0..8).map(|k| std::thread::spawn(move || write(k))).collect();
    for t in t {
        t.join().ok();
    }
}
