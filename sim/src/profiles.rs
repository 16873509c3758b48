//! The mix of work and faults each property is searched with.

use crate::scenario::Profile;

const BASE: Profile = Profile {
    id: "",
    runs: 6000,
    needs: &[],
    ignore: &[],
    max_clients: 4,
    phases: (1, 3),
    ops: (12, 60),
    //   put del scan txn snap sleep versions
    w: [34, 16, 14, 10, 6, 14, 1],
    crash: 70,
    power: 40,
    open_crash: 15,
    faults: 0,
    compaction: 60,
    minor: 80,
    object: 25,
    always: 80,
    fast: 0,
    preds: 0,
    limit: 0,
    int_keys_only: false,
    corrupt: 0,
    seal: 6,
};

pub fn all() -> Vec<Profile> {
    vec![
        Profile {
            id: "P01",
            needs: &["crash"],
            always: 100,
            w: [50, 15, 5, 12, 0, 14, 0],
            crash: 90,
            power: 60,
            ..BASE
        },
        Profile {
            id: "P02",
            needs: &["write-cut-by-crash"],
            always: 90,
            w: [30, 20, 4, 36, 0, 10, 0],
            crash: 97,
            power: 55,
            ..BASE
        },
        Profile {
            id: "P03",
            needs: &["several-restarts"],
            phases: (3, 6),
            ops: (3, 20),
            crash: 75,
            open_crash: 45,
            ..BASE
        },
        Profile {
            id: "P04",
            needs: &["flush", "crash"],
            minor: 100,
            compaction: 15,
            seal: 2,
            crash: 90,
            power: 45,
            w: [46, 16, 6, 12, 0, 18, 0],
            ..BASE
        },
        Profile {
            id: "P05",
            needs: &["filtered-scan"],
            phases: (1, 2),
            max_clients: 2,
            w: [30, 16, 40, 2, 0, 14, 0],
            crash: 20,
            power: 0,
            open_crash: 0,
            preds: 75,
            limit: 30,
            ..BASE
        },
        Profile {
            id: "P06",
            needs: &["compaction"],
            minor: 100,
            compaction: 100,
            seal: 2,
            crash: 60,
            w: [40, 24, 14, 4, 6, 20, 1],
            preds: 20,
            ..BASE
        },
        Profile {
            id: "P07",
            needs: &["snapshot-read"],
            phases: (1, 1),
            w: [30, 14, 6, 8, 30, 14, 0],
            crash: 10,
            ..BASE
        },
        Profile {
            id: "P08",
            needs: &["txn-commit"],
            phases: (1, 2),
            w: [14, 6, 6, 50, 0, 12, 0],
            crash: 30,
            ..BASE
        },
        Profile {
            id: "P09",
            needs: &["io-fault"],
            faults: 100,
            ..BASE
        },
        Profile {
            id: "P10",
            needs: &["crash"],
            phases: (2, 3),
            ops: (6, 40),
            w: [40, 16, 6, 22, 0, 10, 0],
            crash: 85,
            power: 30,
            object: 10,
            corrupt: 100,
            minor: 50,
            ..BASE
        },
        Profile {
            id: "P11",
            needs: &["crash"],
            always: 0,
            power: 90,
            fast: 15,
            ..BASE
        },
        Profile {
            id: "P12",
            needs: &["flush"],
            minor: 100,
            compaction: 80,
            seal: 2,
            w: [40, 14, 6, 6, 2, 16, 14],
            faults: 25,
            ..BASE
        },
        Profile {
            id: "P14",
            minor: 95,
            compaction: 90,
            seal: 2,
            faults: 50,
            crash: 60,
            w: [50, 14, 8, 14, 4, 10, 1],
            max_clients: 6,
            ..BASE
        },
        Profile {
            id: "P15",
            needs: &["crash"],
            object: 100,
            faults: 40,
            ..BASE
        },
    ]
}

pub fn get(id: &str) -> Option<Profile> {
    all().into_iter().find(|p| p.id == id)
}
