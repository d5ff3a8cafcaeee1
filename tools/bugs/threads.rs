// Two writers in two threads; the first one waits in the middle of its flush until the second one is done.
use std::io::Write;
use std::sync::mpsc::{channel, Receiver, Sender};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::{sim_hooks, IoTDBValue, PositionedWrite, Schema, TSDataType};
struct Sink(std::fs::File, u64, Option<(Sender<()>, Receiver<()>)>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > 100 {
            if let Some((s, r)) = self.2.take() {
                s.send(()).unwrap();
                r.recv().ok();
            }
        }
        self.0.write_all(b)?;
        self.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl PositionedWrite for Sink {
    fn get_position(&self) -> u64 {
        self.1
    }
}
fn write(name: &'static str, device: &'static str, gate: Option<(Sender<()>, Receiver<()>)>) {
    let s = Schema::simple(device, "s", TSDataType::INT64, TSEncoding::PLAIN, CompressionType::UNCOMPRESSED);
    let f = Sink(std::fs::File::create(name).unwrap(), 0, gate);
    let mut w = sim_hooks::writer_over(s, f, Default::default()).unwrap();
    for i in 0..50 {
        w.write(device, "s", i, IoTDBValue::LONG(i)).unwrap();
    }
    w.close().unwrap();
}
fn main() {
    let (s1, r1) = channel();
    let (s2, r2) = channel();
    let t = std::thread::spawn(move || write("a.bin", "dev_a", Some((s1, r2))));
    r1.recv().unwrap();
    write("b.bin", "device_b", None);
    s2.send(()).unwrap();
    t.join().unwrap();
}
