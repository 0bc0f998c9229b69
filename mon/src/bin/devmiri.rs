//! The devices alone, for the undefined-behaviour interpreter: the cast in `DevWrapper::wrap`, and data
//! races between a device and threads using its buffer. (Run by the thorough tiers of C32 and C33.)
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, NullDevice, TimerDevice};
use std::sync::{Arc, RwLock};

const KBSR: u16 = 0xFE00;
const KBDR: u16 = 0xFE02;
const DSR: u16 = 0xFE04;
const DDR: u16 = 0xFE06;

fn run(kb: &mut dyn ExternalDevice, ds: &mut dyn ExternalDevice, want: usize) -> usize {
    let mut got = vec![];
    let mut tries = 0;
    while got.len() < want && tries < 4000 {
        tries += 1;
        let _ = kb.poll_interrupt();
        if kb.io_read(KBSR, true).is_some_and(|s| s >> 15 == 1) {
            let _ = kb.io_read(KBDR, false);
            if let Some(c) = kb.io_read(KBDR, true) {
                got.push(c);
                let mut spins = 0;
                while !ds.io_read(DSR, true).is_some_and(|s| s >> 15 == 1) && spins < 200 {
                    std::thread::yield_now();
                    spins += 1;
                }
                ds.io_write(DDR, c);
            }
        } else {
            std::thread::yield_now();
        }
        kb.io_write(KBSR, if tries % 2 == 0 { 1 << 14 } else { 0 });
        let _ = ds.poll_interrupt();
        let _ = ds.io_write(DSR, 0x4000);
    }
    assert!(got.windows(2).all(|w| w[1] == w[0] + 1), "bytes out of order: {got:?}");
    got.len()
}

fn main() {
    let kbuf = Arc::new(RwLock::new(std::collections::VecDeque::new()));
    let dbuf = Arc::new(RwLock::new(vec![]));
    let mut kb = BufferedKeyboard::new(kbuf.clone());
    let mut ds = BufferedDisplay::new(dbuf.clone());
    let n = 20u8;
    let feeder = {
        let kbuf = kbuf.clone();
        std::thread::spawn(move || {
            for i in 0..n {
                kbuf.write().unwrap().push_back(i);
                std::thread::yield_now();
            }
        })
    };
    let watcher = {
        let dbuf = dbuf.clone();
        std::thread::spawn(move || {
            let mut len = 0;
            for _ in 0..40 {
                let l = dbuf.read().unwrap().len();
                assert!(l >= len);
                len = l;
                std::thread::yield_now();
            }
        })
    };
    let k = run(&mut kb, &mut ds, n as usize);
    feeder.join().unwrap();
    watcher.join().unwrap();
    let rest = kbuf.write().unwrap().len();
    assert_eq!(k + rest, n as usize, "bytes lost or doubled");
    kb.io_reset();
    ds.io_reset();

    // The same through the handler, with devices of every kind.
    let mut h = DeviceHandler::default();
    h.set_keyboard(BufferedKeyboard::new(kbuf.clone()));
    h.set_display(BufferedDisplay::new(dbuf.clone()));
    let id = h.add_device({ let mut t = TimerDevice::new(Some(1), 1..5, 0x81, 4); t.enabled = true; t }, &[0xFE10, 0xFE12]).unwrap_or_else(|_| panic!("not added"));
    kbuf.write().unwrap().extend([7u8, 8, 9]);
    let mut ints = 0;
    for i in 0..50u16 {
        for a in [KBSR, KBDR, DSR, DDR, 0xFE10, 0xFE12, 0xFE20] {
            let _ = h.io_read(a, i % 3 == 0);
            let _ = h.io_write(a, if i % 2 == 0 { 0x4000 } else { i });
        }
        ints += h.poll_interrupt().is_some() as u32;
        match i {
            10 => drop(h.io_reset()),
            20 => drop(h.remove_device(id)),
            30 => h.set_keyboard(NullDevice),
            _ => {}
        }
    }
    println!("{k} bytes through the devices, {ints} interrupts");
}
