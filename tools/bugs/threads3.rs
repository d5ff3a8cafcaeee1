// Eight threads that write many small files.
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::{IoTDBValue, TSDataType};
const DEVICES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
fn write(k: i64) {
    let name: &'static str = Box::leak(format!("{}.bin", k).into_boxed_str());
    for i in 0..500 {
        let mut b = TsFileSchemaBuilder::new();
        for d in DEVICES {
            b.add(d, DeviceBuilder::new().add("s", TSDataType::INT64, TSEncoding::PLAIN, CompressionType::SNAPPY).build());
        }
        let s = b.build();
        let mut w = TsFileWriter::new(name, s, Default::default()).unwrap();
        for d in DEVICES {
            w.write(d, "s", i, IoTDBValue::LONG(i * k)).unwrap();
        }
        w.close().unwrap();
    }
}
fn main() {
    let t: Vec<_> = (0..8).map(|k| std::thread::spawn(move || write(k))).collect();
    for t in t {
        t.join().unwrap();
    }
}
