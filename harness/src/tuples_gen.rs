// Written by gen/mktuples.py.
use super::{forest, tree, Job};
pub fn run(kind: &str, shape: &str, mode: usize, j: &mut Job) -> bool {
    match (kind, shape, mode) {
        ("t", "[]", 0) => tree(|v| v(), j),
        ("t", "[]", 1) => tree(|v| (v(),), j),
        ("t", "[[]]", 0) => tree(|v| (v(),v()), j),
        ("t", "[[]]", 1) => tree(|v| (v(),(v(),)), j),
        ("t", "[[[]]]", 0) => tree(|v| (v(),(v(),v())), j),
        ("t", "[[[]]]", 1) => tree(|v| (v(),(v(),(v(),))), j),
        ("t", "[[],[]]", 0) => tree(|v| (v(),v(),v()), j),
        ("t", "[[],[]]", 1) => tree(|v| (v(),(v(),),(v(),)), j),
        ("t", "[[],[]]", 2) => tree(|v| (v(),(v(),),v()), j),
        ("t", "[[[[]]]]", 0) => tree(|v| (v(),(v(),(v(),v()))), j),
        ("t", "[[[[]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),)))), j),
        ("t", "[[[],[]]]", 0) => tree(|v| (v(),(v(),v(),v())), j),
        ("t", "[[[],[]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),))), j),
        ("t", "[[[],[]]]", 2) => tree(|v| (v(),(v(),(v(),),v())), j),
        ("t", "[[[]],[]]", 0) => tree(|v| (v(),(v(),v()),v()), j),
        ("t", "[[[]],[]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),)), j),
        ("t", "[[[]],[]]", 2) => tree(|v| (v(),(v(),(v(),)),v()), j),
        ("t", "[[],[[]]]", 0) => tree(|v| (v(),v(),(v(),v())), j),
        ("t", "[[],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),))), j),
        ("t", "[[],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v())), j),
        ("t", "[[],[],[]]", 0) => tree(|v| (v(),v(),v(),v()), j),
        ("t", "[[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),)), j),
        ("t", "[[[[[]]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),v())))), j),
        ("t", "[[[[[]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),))))), j),
        ("t", "[[[[],[]]]]", 0) => tree(|v| (v(),(v(),(v(),v(),v()))), j),
        ("t", "[[[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),),(v(),)))), j),
        ("t", "[[[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),),v()))), j),
        ("t", "[[[[]],[]]]", 0) => tree(|v| (v(),(v(),(v(),v()),v())), j),
        ("t", "[[[[]],[]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),)),(v(),))), j),
        ("t", "[[[[]],[]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),)),v())), j),
        ("t", "[[[[]]],[]]", 0) => tree(|v| (v(),(v(),(v(),v())),v()), j),
        ("t", "[[[[]]],[]]", 1) => tree(|v| (v(),(v(),(v(),(v(),))),(v(),)), j),
        ("t", "[[[[]]],[]]", 2) => tree(|v| (v(),(v(),(v(),(v(),))),v()), j),
        ("t", "[[[],[[]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v()))), j),
        ("t", "[[[],[[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),)))), j),
        ("t", "[[[],[[]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v()))), j),
        ("t", "[[[],[],[]]]", 0) => tree(|v| (v(),(v(),v(),v(),v())), j),
        ("t", "[[[],[],[]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),),(v(),))), j),
        ("t", "[[[],[],[]]]", 2) => tree(|v| (v(),(v(),(v(),),v(),(v(),))), j),
        ("t", "[[[],[]],[]]", 0) => tree(|v| (v(),(v(),v(),v()),v()), j),
        ("t", "[[[],[]],[]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),)),(v(),)), j),
        ("t", "[[[],[]],[]]", 2) => tree(|v| (v(),(v(),(v(),),v()),(v(),)), j),
        ("t", "[[[]],[[]]]", 0) => tree(|v| (v(),(v(),v()),(v(),v())), j),
        ("t", "[[[]],[[]]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),(v(),))), j),
        ("t", "[[[]],[[]]]", 2) => tree(|v| (v(),(v(),(v(),)),(v(),v())), j),
        ("t", "[[[]],[],[]]", 0) => tree(|v| (v(),(v(),v()),v(),v()), j),
        ("t", "[[[]],[],[]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),),(v(),)), j),
        ("t", "[[[]],[],[]]", 2) => tree(|v| (v(),(v(),(v(),)),v(),(v(),)), j),
        ("t", "[[],[[[]]]]", 0) => tree(|v| (v(),v(),(v(),(v(),v()))), j),
        ("t", "[[],[[[]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),(v(),)))), j),
        ("t", "[[],[[[]]]]", 2) => tree(|v| (v(),(v(),),(v(),(v(),v()))), j),
        ("t", "[[],[[],[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v())), j),
        ("t", "[[],[[],[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),))), j),
        ("t", "[[],[[],[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),))), j),
        ("t", "[[],[[]],[]]", 0) => tree(|v| (v(),v(),(v(),v()),v()), j),
        ("t", "[[],[[]],[]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),)),(v(),)), j),
        ("t", "[[],[[]],[]]", 2) => tree(|v| (v(),(v(),),(v(),v()),(v(),)), j),
        ("t", "[[],[],[[]]]", 0) => tree(|v| (v(),v(),v(),(v(),v())), j),
        ("t", "[[],[],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),(v(),))), j),
        ("t", "[[],[],[[]]]", 2) => tree(|v| (v(),(v(),),v(),(v(),(v(),))), j),
        ("t", "[[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[[[[]]]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),(v(),v()))))), j),
        ("t", "[[[[[[]]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),(v(),)))))), j),
        ("t", "[[[[[],[]]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),v(),v())))), j),
        ("t", "[[[[[],[]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),),(v(),))))), j),
        ("t", "[[[[[],[]]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),(v(),),v())))), j),
        ("t", "[[[[[]],[]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),v()),v()))), j),
        ("t", "[[[[[]],[]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),)),(v(),)))), j),
        ("t", "[[[[[]],[]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),(v(),)),v()))), j),
        ("t", "[[[[[]]],[]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),v())),v())), j),
        ("t", "[[[[[]]],[]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),))),(v(),))), j),
        ("t", "[[[[[]]],[]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),(v(),))),v())), j),
        ("t", "[[[[[]]]],[]]", 0) => tree(|v| (v(),(v(),(v(),(v(),v()))),v()), j),
        ("t", "[[[[[]]]],[]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),)))),(v(),)), j),
        ("t", "[[[[[]]]],[]]", 2) => tree(|v| (v(),(v(),(v(),(v(),(v(),)))),v()), j),
        ("t", "[[[[],[[]]]]]", 0) => tree(|v| (v(),(v(),(v(),v(),(v(),v())))), j),
        ("t", "[[[[],[[]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),),(v(),(v(),))))), j),
        ("t", "[[[[],[[]]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),),(v(),v())))), j),
        ("t", "[[[[],[],[]]]]", 0) => tree(|v| (v(),(v(),(v(),v(),v(),v()))), j),
        ("t", "[[[[],[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),),(v(),),(v(),)))), j),
        ("t", "[[[[],[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),),v(),(v(),)))), j),
        ("t", "[[[[],[]],[]]]", 0) => tree(|v| (v(),(v(),(v(),v(),v()),v())), j),
        ("t", "[[[[],[]],[]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),),(v(),)),(v(),))), j),
        ("t", "[[[[],[]],[]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),),v()),(v(),))), j),
        ("t", "[[[[],[]]],[]]", 0) => tree(|v| (v(),(v(),(v(),v(),v())),v()), j),
        ("t", "[[[[],[]]],[]]", 1) => tree(|v| (v(),(v(),(v(),(v(),),(v(),))),(v(),)), j),
        ("t", "[[[[],[]]],[]]", 2) => tree(|v| (v(),(v(),(v(),(v(),),v())),(v(),)), j),
        ("t", "[[[[]],[[]]]]", 0) => tree(|v| (v(),(v(),(v(),v()),(v(),v()))), j),
        ("t", "[[[[]],[[]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),)),(v(),(v(),)))), j),
        ("t", "[[[[]],[[]]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),)),(v(),v()))), j),
        ("t", "[[[[]],[],[]]]", 0) => tree(|v| (v(),(v(),(v(),v()),v(),v())), j),
        ("t", "[[[[]],[],[]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),)),(v(),),(v(),))), j),
        ("t", "[[[[]],[],[]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),)),v(),(v(),))), j),
        ("t", "[[[[]],[]],[]]", 0) => tree(|v| (v(),(v(),(v(),v()),v()),v()), j),
        ("t", "[[[[]],[]],[]]", 1) => tree(|v| (v(),(v(),(v(),(v(),)),(v(),)),(v(),)), j),
        ("t", "[[[[]],[]],[]]", 2) => tree(|v| (v(),(v(),(v(),(v(),)),v()),(v(),)), j),
        ("t", "[[[[]]],[[]]]", 0) => tree(|v| (v(),(v(),(v(),v())),(v(),v())), j),
        ("t", "[[[[]]],[[]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),))),(v(),(v(),))), j),
        ("t", "[[[[]]],[[]]]", 2) => tree(|v| (v(),(v(),(v(),(v(),))),(v(),v())), j),
        ("t", "[[[[]]],[],[]]", 0) => tree(|v| (v(),(v(),(v(),v())),v(),v()), j),
        ("t", "[[[[]]],[],[]]", 1) => tree(|v| (v(),(v(),(v(),(v(),))),(v(),),(v(),)), j),
        ("t", "[[[[]]],[],[]]", 2) => tree(|v| (v(),(v(),(v(),(v(),))),v(),(v(),)), j),
        ("t", "[[[],[[[]]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),(v(),v())))), j),
        ("t", "[[[],[[[]]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),(v(),))))), j),
        ("t", "[[[],[[[]]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),(v(),v())))), j),
        ("t", "[[[],[[],[]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v(),(v(),)))), j),
        ("t", "[[[],[[]],[]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v()),v())), j),
        ("t", "[[[],[[]],[]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),)),(v(),))), j),
        ("t", "[[[],[[]],[]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v()),(v(),))), j),
        ("t", "[[[],[[]]],[]]", 0) => tree(|v| (v(),(v(),v(),(v(),v())),v()), j),
        ("t", "[[[],[[]]],[]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),))),(v(),)), j),
        ("t", "[[[],[[]]],[]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v())),(v(),)), j),
        ("t", "[[[],[],[[]]]]", 0) => tree(|v| (v(),(v(),v(),v(),(v(),v()))), j),
        ("t", "[[[],[],[[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),),(v(),(v(),)))), j),
        ("t", "[[[],[],[[]]]]", 2) => tree(|v| (v(),(v(),(v(),),v(),(v(),(v(),)))), j),
        ("t", "[[[],[],[],[]]]", 0) => tree(|v| (v(),(v(),v(),v(),v(),v())), j),
        ("t", "[[[],[],[],[]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),),(v(),),(v(),))), j),
        ("t", "[[[],[],[],[]]]", 2) => tree(|v| (v(),(v(),(v(),),v(),(v(),),v())), j),
        ("t", "[[[],[],[]],[]]", 0) => tree(|v| (v(),(v(),v(),v(),v()),v()), j),
        ("t", "[[[],[],[]],[]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),),(v(),)),(v(),)), j),
        ("t", "[[[],[],[]],[]]", 2) => tree(|v| (v(),(v(),(v(),),v(),(v(),)),v()), j),
        ("t", "[[[],[]],[[]]]", 0) => tree(|v| (v(),(v(),v(),v()),(v(),v())), j),
        ("t", "[[[],[]],[[]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[[],[]],[[]]]", 2) => tree(|v| (v(),(v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[[],[]],[],[]]", 0) => tree(|v| (v(),(v(),v(),v()),v(),v()), j),
        ("t", "[[[],[]],[],[]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),)),(v(),),(v(),)), j),
        ("t", "[[[],[]],[],[]]", 2) => tree(|v| (v(),(v(),(v(),),v()),(v(),),v()), j),
        ("t", "[[[]],[[[]]]]", 0) => tree(|v| (v(),(v(),v()),(v(),(v(),v()))), j),
        ("t", "[[[]],[[[]]]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),(v(),(v(),)))), j),
        ("t", "[[[]],[[[]]]]", 2) => tree(|v| (v(),(v(),(v(),)),(v(),(v(),v()))), j),
        ("t", "[[[]],[[],[]]]", 0) => tree(|v| (v(),(v(),v()),(v(),v(),v())), j),
        ("t", "[[[]],[[],[]]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),(v(),),(v(),))), j),
        ("t", "[[[]],[[],[]]]", 2) => tree(|v| (v(),(v(),(v(),)),(v(),v(),(v(),))), j),
        ("t", "[[[]],[[]],[]]", 0) => tree(|v| (v(),(v(),v()),(v(),v()),v()), j),
        ("t", "[[[]],[[]],[]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),(v(),)),(v(),)), j),
        ("t", "[[[]],[[]],[]]", 2) => tree(|v| (v(),(v(),(v(),)),(v(),v()),(v(),)), j),
        ("t", "[[[]],[],[[]]]", 0) => tree(|v| (v(),(v(),v()),v(),(v(),v())), j),
        ("t", "[[[]],[],[[]]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),),(v(),(v(),))), j),
        ("t", "[[[]],[],[[]]]", 2) => tree(|v| (v(),(v(),(v(),)),v(),(v(),(v(),))), j),
        ("t", "[[[]],[],[],[]]", 0) => tree(|v| (v(),(v(),v()),v(),v(),v()), j),
        ("t", "[[[]],[],[],[]]", 1) => tree(|v| (v(),(v(),(v(),)),(v(),),(v(),),(v(),)), j),
        ("t", "[[[]],[],[],[]]", 2) => tree(|v| (v(),(v(),(v(),)),v(),(v(),),v()), j),
        ("t", "[[],[[[[]]]]]", 0) => tree(|v| (v(),v(),(v(),(v(),(v(),v())))), j),
        ("t", "[[],[[[[]]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),(v(),(v(),))))), j),
        ("t", "[[],[[[[]]]]]", 2) => tree(|v| (v(),(v(),),(v(),(v(),(v(),v())))), j),
        ("t", "[[],[[[],[]]]]", 0) => tree(|v| (v(),v(),(v(),(v(),v(),v()))), j),
        ("t", "[[],[[[],[]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),(v(),),(v(),)))), j),
        ("t", "[[],[[[],[]]]]", 2) => tree(|v| (v(),(v(),),(v(),(v(),v(),(v(),)))), j),
        ("t", "[[],[[[]],[]]]", 0) => tree(|v| (v(),v(),(v(),(v(),v()),v())), j),
        ("t", "[[],[[[]],[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),(v(),)),(v(),))), j),
        ("t", "[[],[[[]],[]]]", 2) => tree(|v| (v(),(v(),),(v(),(v(),v()),(v(),))), j),
        ("t", "[[],[[[]]],[]]", 0) => tree(|v| (v(),v(),(v(),(v(),v())),v()), j),
        ("t", "[[],[[[]]],[]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),(v(),))),(v(),)), j),
        ("t", "[[],[[[]]],[]]", 2) => tree(|v| (v(),(v(),),(v(),(v(),v())),(v(),)), j),
        ("t", "[[],[[],[[]]]]", 0) => tree(|v| (v(),v(),(v(),v(),(v(),v()))), j),
        ("t", "[[],[[],[[]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),(v(),)))), j),
        ("t", "[[],[[],[[]]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),(v(),)))), j),
        ("t", "[[],[[],[],[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v())), j),
        ("t", "[[],[[],[],[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),))), j),
        ("t", "[[],[[],[],[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v())), j),
        ("t", "[[],[[],[]],[]]", 0) => tree(|v| (v(),v(),(v(),v(),v()),v()), j),
        ("t", "[[],[[],[]],[]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),)),(v(),)), j),
        ("t", "[[],[[],[]],[]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),)),v()), j),
        ("t", "[[],[[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v()),(v(),v())), j),
        ("t", "[[],[[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v()),(v(),(v(),))), j),
        ("t", "[[],[[]],[],[]]", 0) => tree(|v| (v(),v(),(v(),v()),v(),v()), j),
        ("t", "[[],[[]],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),)),(v(),),(v(),)), j),
        ("t", "[[],[[]],[],[]]", 2) => tree(|v| (v(),(v(),),(v(),v()),(v(),),v()), j),
        ("t", "[[],[],[[[]]]]", 0) => tree(|v| (v(),v(),v(),(v(),(v(),v()))), j),
        ("t", "[[],[],[[[]]]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),(v(),(v(),)))), j),
        ("t", "[[],[],[[[]]]]", 2) => tree(|v| (v(),(v(),),v(),(v(),(v(),(v(),)))), j),
        ("t", "[[],[],[[],[]]]", 0) => tree(|v| (v(),v(),v(),(v(),v(),v())), j),
        ("t", "[[],[],[[],[]]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),(v(),),(v(),))), j),
        ("t", "[[],[],[[],[]]]", 2) => tree(|v| (v(),(v(),),v(),(v(),(v(),),v())), j),
        ("t", "[[],[],[[]],[]]", 0) => tree(|v| (v(),v(),v(),(v(),v()),v()), j),
        ("t", "[[],[],[[]],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),(v(),)),(v(),)), j),
        ("t", "[[],[],[[]],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),(v(),)),v()), j),
        ("t", "[[],[],[],[[]]]", 0) => tree(|v| (v(),v(),v(),v(),(v(),v())), j),
        ("t", "[[],[],[],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),(v(),))), j),
        ("t", "[[],[],[],[[]]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),(v(),v())), j),
        ("t", "[[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[[[[[[]]]]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),(v(),(v(),v())))))), j),
        ("t", "[[[[[[[]]]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),(v(),(v(),))))))), j),
        ("t", "[[],[[],[[],[]]]]", 0) => tree(|v| (v(),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),(v(),),v()))), j),
        ("t", "[[],[[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[[[[[[]]]]]]]]", 0) => tree(|v| (v(),(v(),(v(),(v(),(v(),(v(),(v(),v()))))))), j),
        ("t", "[[[[[[[[]]]]]]]]", 1) => tree(|v| (v(),(v(),(v(),(v(),(v(),(v(),(v(),(v(),)))))))), j),
        ("t", "[[],[[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[[],[[],[]]]]", 0) => tree(|v| (v(),v(),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[],[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[],[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),),v(),(v(),(v(),),(v(),v(),(v(),)))), j),
        ("t", "[[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[[],[[],[]]]]]", 0) => tree(|v| (v(),v(),(v(),v(),(v(),v(),(v(),v(),v())))), j),
        ("t", "[[],[[],[[],[[],[]]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),))))), j),
        ("t", "[[],[[],[[],[[],[]]]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),))))), j),
        ("t", "[[],[[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[],[]],[],[[],[[],[]]]]", 0) => tree(|v| (v(),(v(),v(),v()),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[[],[]],[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),)),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[[],[]],[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),),v()),(v(),),(v(),v(),(v(),(v(),),v()))), j),
        ("t", "[[],[[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[[],[[],[[],[]]]]]]", 0) => tree(|v| (v(),v(),(v(),v(),(v(),v(),(v(),v(),(v(),v(),v()))))), j),
        ("t", "[[],[[],[[],[[],[[],[]]]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))))), j),
        ("t", "[[],[[],[[],[[],[[],[]]]]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),(v(),),v()))))), j),
        ("t", "[[],[[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[],[[],[]]],[],[[],[[],[]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v(),v())),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[[],[[],[]]],[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),),(v(),))),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[[],[[],[]]],[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v(),(v(),))),v(),(v(),(v(),),(v(),v(),(v(),)))), j),
        ("t", "[[],[[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[[],[[],[[],[[],[]]]]]]]", 0) => tree(|v| (v(),v(),(v(),v(),(v(),v(),(v(),v(),(v(),v(),(v(),v(),v())))))), j),
        ("t", "[[],[[],[[],[[],[[],[[],[]]]]]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),))))))), j),
        ("t", "[[],[[],[[],[[],[[],[[],[]]]]]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),))))))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v(),(v(),v(),v()))),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v(),(v(),(v(),),v()))),(v(),),(v(),v(),(v(),(v(),),v()))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 0) => tree(|v| (v(),(v(),v(),(v(),v(),(v(),v(),(v(),v(),v())))),v(),(v(),v(),(v(),v(),v()))), j),
        ("t", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 1) => tree(|v| (v(),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),))))),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))), j),
        ("t", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 2) => tree(|v| (v(),(v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),))))),v(),(v(),(v(),),(v(),v(),(v(),)))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 0) => tree(|v| (v(),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 1) => tree(|v| (v(),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => tree(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v()), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => tree(|v| (v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => tree(|v| (v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),(v(),))), j),
        ("t", "[[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[[]]]", 2) => tree(|v| (v(),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),(v(),v())), j),
        ("f", "[]", 0) => forest(|_v| (), j),
        ("f", "[[]]", 0) => forest(|v| (v(),), j),
        ("f", "[[]]", 1) => forest(|v| ((v(),),), j),
        ("f", "[[[]]]", 0) => forest(|v| ((v(),v()),), j),
        ("f", "[[[]]]", 1) => forest(|v| ((v(),(v(),)),), j),
        ("f", "[[],[]]", 0) => forest(|v| (v(),v(),), j),
        ("f", "[[],[]]", 1) => forest(|v| ((v(),),(v(),),), j),
        ("f", "[[],[]]", 2) => forest(|v| ((v(),),v(),), j),
        ("f", "[[[[]]]]", 0) => forest(|v| ((v(),(v(),v())),), j),
        ("f", "[[[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),))),), j),
        ("f", "[[[],[]]]", 0) => forest(|v| ((v(),v(),v()),), j),
        ("f", "[[[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),), j),
        ("f", "[[[],[]]]", 2) => forest(|v| ((v(),(v(),),v()),), j),
        ("f", "[[[]],[]]", 0) => forest(|v| ((v(),v()),v(),), j),
        ("f", "[[[]],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),),), j),
        ("f", "[[[]],[]]", 2) => forest(|v| ((v(),(v(),)),v(),), j),
        ("f", "[[],[[]]]", 0) => forest(|v| (v(),(v(),v()),), j),
        ("f", "[[],[[]]]", 1) => forest(|v| ((v(),),(v(),(v(),)),), j),
        ("f", "[[],[[]]]", 2) => forest(|v| ((v(),),(v(),v()),), j),
        ("f", "[[],[],[]]", 0) => forest(|v| (v(),v(),v(),), j),
        ("f", "[[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),), j),
        ("f", "[[[[[]]]]]", 0) => forest(|v| ((v(),(v(),(v(),v()))),), j),
        ("f", "[[[[[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[[[],[]]]]", 0) => forest(|v| ((v(),(v(),v(),v())),), j),
        ("f", "[[[[],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),))),), j),
        ("f", "[[[[],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),),v())),), j),
        ("f", "[[[[]],[]]]", 0) => forest(|v| ((v(),(v(),v()),v()),), j),
        ("f", "[[[[]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),)),), j),
        ("f", "[[[[]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),)),v()),), j),
        ("f", "[[[[]]],[]]", 0) => forest(|v| ((v(),(v(),v())),v(),), j),
        ("f", "[[[[]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),),), j),
        ("f", "[[[[]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),))),v(),), j),
        ("f", "[[[],[[]]]]", 0) => forest(|v| ((v(),v(),(v(),v())),), j),
        ("f", "[[[],[[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),))),), j),
        ("f", "[[[],[[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v())),), j),
        ("f", "[[[],[],[]]]", 0) => forest(|v| ((v(),v(),v(),v()),), j),
        ("f", "[[[],[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),)),), j),
        ("f", "[[[],[]],[]]", 0) => forest(|v| ((v(),v(),v()),v(),), j),
        ("f", "[[[],[]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),), j),
        ("f", "[[[],[]],[]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),), j),
        ("f", "[[[]],[[]]]", 0) => forest(|v| ((v(),v()),(v(),v()),), j),
        ("f", "[[[]],[[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),)),), j),
        ("f", "[[[]],[[]]]", 2) => forest(|v| ((v(),(v(),)),(v(),v()),), j),
        ("f", "[[[]],[],[]]", 0) => forest(|v| ((v(),v()),v(),v(),), j),
        ("f", "[[[]],[],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),),), j),
        ("f", "[[[]],[],[]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),),), j),
        ("f", "[[],[[[]]]]", 0) => forest(|v| (v(),(v(),(v(),v())),), j),
        ("f", "[[],[[[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),))),), j),
        ("f", "[[],[[[]]]]", 2) => forest(|v| ((v(),),(v(),(v(),v())),), j),
        ("f", "[[],[[],[]]]", 0) => forest(|v| (v(),(v(),v(),v()),), j),
        ("f", "[[],[[],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),)),), j),
        ("f", "[[],[[],[]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),)),), j),
        ("f", "[[],[[]],[]]", 0) => forest(|v| (v(),(v(),v()),v(),), j),
        ("f", "[[],[[]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),),), j),
        ("f", "[[],[[]],[]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),),), j),
        ("f", "[[],[],[[]]]", 0) => forest(|v| (v(),v(),(v(),v()),), j),
        ("f", "[[],[],[[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),)),), j),
        ("f", "[[],[],[[]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),)),), j),
        ("f", "[[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),), j),
        ("f", "[[[[[[]]]]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v())))),), j),
        ("f", "[[[[[[]]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),))))),), j),
        ("f", "[[[[[],[]]]]]", 0) => forest(|v| ((v(),(v(),(v(),v(),v()))),), j),
        ("f", "[[[[[],[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),)))),), j),
        ("f", "[[[[[],[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),v()))),), j),
        ("f", "[[[[[]],[]]]]", 0) => forest(|v| ((v(),(v(),(v(),v()),v())),), j),
        ("f", "[[[[[]],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),))),), j),
        ("f", "[[[[[]],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)),v())),), j),
        ("f", "[[[[[]]],[]]]", 0) => forest(|v| ((v(),(v(),(v(),v())),v()),), j),
        ("f", "[[[[[]]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),))),(v(),)),), j),
        ("f", "[[[[[]]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),))),v()),), j),
        ("f", "[[[[[]]]],[]]", 0) => forest(|v| ((v(),(v(),(v(),v()))),v(),), j),
        ("f", "[[[[[]]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)))),(v(),),), j),
        ("f", "[[[[[]]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)))),v(),), j),
        ("f", "[[[[],[[]]]]]", 0) => forest(|v| ((v(),(v(),v(),(v(),v()))),), j),
        ("f", "[[[[],[[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),)))),), j),
        ("f", "[[[[],[[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),v()))),), j),
        ("f", "[[[[],[],[]]]]", 0) => forest(|v| ((v(),(v(),v(),v(),v())),), j),
        ("f", "[[[[],[],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),),(v(),))),), j),
        ("f", "[[[[],[],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),),v(),(v(),))),), j),
        ("f", "[[[[],[]],[]]]", 0) => forest(|v| ((v(),(v(),v(),v()),v()),), j),
        ("f", "[[[[],[]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),)),(v(),)),), j),
        ("f", "[[[[],[]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),),v()),(v(),)),), j),
        ("f", "[[[[],[]]],[]]", 0) => forest(|v| ((v(),(v(),v(),v())),v(),), j),
        ("f", "[[[[],[]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),))),(v(),),), j),
        ("f", "[[[[],[]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),),v())),(v(),),), j),
        ("f", "[[[[]],[[]]]]", 0) => forest(|v| ((v(),(v(),v()),(v(),v())),), j),
        ("f", "[[[[]],[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),))),), j),
        ("f", "[[[[]],[[]]]]", 2) => forest(|v| ((v(),(v(),(v(),)),(v(),v())),), j),
        ("f", "[[[[]],[],[]]]", 0) => forest(|v| ((v(),(v(),v()),v(),v()),), j),
        ("f", "[[[[]],[],[]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),),(v(),)),), j),
        ("f", "[[[[]],[],[]]]", 2) => forest(|v| ((v(),(v(),(v(),)),v(),(v(),)),), j),
        ("f", "[[[[]],[]],[]]", 0) => forest(|v| ((v(),(v(),v()),v()),v(),), j),
        ("f", "[[[[]],[]],[]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),)),(v(),),), j),
        ("f", "[[[[]],[]],[]]", 2) => forest(|v| ((v(),(v(),(v(),)),v()),(v(),),), j),
        ("f", "[[[[]]],[[]]]", 0) => forest(|v| ((v(),(v(),v())),(v(),v()),), j),
        ("f", "[[[[]]],[[]]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),(v(),)),), j),
        ("f", "[[[[]]],[[]]]", 2) => forest(|v| ((v(),(v(),(v(),))),(v(),v()),), j),
        ("f", "[[[[]]],[],[]]", 0) => forest(|v| ((v(),(v(),v())),v(),v(),), j),
        ("f", "[[[[]]],[],[]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),),(v(),),), j),
        ("f", "[[[[]]],[],[]]", 2) => forest(|v| ((v(),(v(),(v(),))),v(),(v(),),), j),
        ("f", "[[[],[[[]]]]]", 0) => forest(|v| ((v(),v(),(v(),(v(),v()))),), j),
        ("f", "[[[],[[[]]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),)))),), j),
        ("f", "[[[],[[[]]]]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),v()))),), j),
        ("f", "[[[],[[],[]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),))),), j),
        ("f", "[[[],[[]],[]]]", 0) => forest(|v| ((v(),v(),(v(),v()),v()),), j),
        ("f", "[[[],[[]],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),)),(v(),)),), j),
        ("f", "[[[],[[]],[]]]", 2) => forest(|v| ((v(),(v(),),(v(),v()),(v(),)),), j),
        ("f", "[[[],[[]]],[]]", 0) => forest(|v| ((v(),v(),(v(),v())),v(),), j),
        ("f", "[[[],[[]]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),))),(v(),),), j),
        ("f", "[[[],[[]]],[]]", 2) => forest(|v| ((v(),(v(),),(v(),v())),(v(),),), j),
        ("f", "[[[],[],[[]]]]", 0) => forest(|v| ((v(),v(),v(),(v(),v())),), j),
        ("f", "[[[],[],[[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),(v(),))),), j),
        ("f", "[[[],[],[[]]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),(v(),))),), j),
        ("f", "[[[],[],[],[]]]", 0) => forest(|v| ((v(),v(),v(),v(),v()),), j),
        ("f", "[[[],[],[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v()),), j),
        ("f", "[[[],[],[]],[]]", 0) => forest(|v| ((v(),v(),v(),v()),v(),), j),
        ("f", "[[[],[],[]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),)),(v(),),), j),
        ("f", "[[[],[],[]],[]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),)),v(),), j),
        ("f", "[[[],[]],[[]]]", 0) => forest(|v| ((v(),v(),v()),(v(),v()),), j),
        ("f", "[[[],[]],[[]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),(v(),)),), j),
        ("f", "[[[],[]],[[]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),(v(),)),), j),
        ("f", "[[[],[]],[],[]]", 0) => forest(|v| ((v(),v(),v()),v(),v(),), j),
        ("f", "[[[],[]],[],[]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),(v(),),), j),
        ("f", "[[[],[]],[],[]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),v(),), j),
        ("f", "[[[]],[[[]]]]", 0) => forest(|v| ((v(),v()),(v(),(v(),v())),), j),
        ("f", "[[[]],[[[]]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),))),), j),
        ("f", "[[[]],[[[]]]]", 2) => forest(|v| ((v(),(v(),)),(v(),(v(),v())),), j),
        ("f", "[[[]],[[],[]]]", 0) => forest(|v| ((v(),v()),(v(),v(),v()),), j),
        ("f", "[[[]],[[],[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),),(v(),)),), j),
        ("f", "[[[]],[[],[]]]", 2) => forest(|v| ((v(),(v(),)),(v(),v(),(v(),)),), j),
        ("f", "[[[]],[[]],[]]", 0) => forest(|v| ((v(),v()),(v(),v()),v(),), j),
        ("f", "[[[]],[[]],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),)),(v(),),), j),
        ("f", "[[[]],[[]],[]]", 2) => forest(|v| ((v(),(v(),)),(v(),v()),(v(),),), j),
        ("f", "[[[]],[],[[]]]", 0) => forest(|v| ((v(),v()),v(),(v(),v()),), j),
        ("f", "[[[]],[],[[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),(v(),)),), j),
        ("f", "[[[]],[],[[]]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),(v(),)),), j),
        ("f", "[[[]],[],[],[]]", 0) => forest(|v| ((v(),v()),v(),v(),v(),), j),
        ("f", "[[[]],[],[],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),),(v(),),), j),
        ("f", "[[[]],[],[],[]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),),v(),), j),
        ("f", "[[],[[[[]]]]]", 0) => forest(|v| (v(),(v(),(v(),(v(),v()))),), j),
        ("f", "[[],[[[[]]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[],[[[[]]]]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),v()))),), j),
        ("f", "[[],[[[],[]]]]", 0) => forest(|v| (v(),(v(),(v(),v(),v())),), j),
        ("f", "[[],[[[],[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),),(v(),))),), j),
        ("f", "[[],[[[],[]]]]", 2) => forest(|v| ((v(),),(v(),(v(),v(),(v(),))),), j),
        ("f", "[[],[[[]],[]]]", 0) => forest(|v| (v(),(v(),(v(),v()),v()),), j),
        ("f", "[[],[[[]],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),)),(v(),)),), j),
        ("f", "[[],[[[]],[]]]", 2) => forest(|v| ((v(),),(v(),(v(),v()),(v(),)),), j),
        ("f", "[[],[[[]]],[]]", 0) => forest(|v| (v(),(v(),(v(),v())),v(),), j),
        ("f", "[[],[[[]]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),))),(v(),),), j),
        ("f", "[[],[[[]]],[]]", 2) => forest(|v| ((v(),),(v(),(v(),v())),(v(),),), j),
        ("f", "[[],[[],[[]]]]", 0) => forest(|v| (v(),(v(),v(),(v(),v())),), j),
        ("f", "[[],[[],[[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),(v(),))),), j),
        ("f", "[[],[[],[[]]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),(v(),))),), j),
        ("f", "[[],[[],[],[]]]", 0) => forest(|v| (v(),(v(),v(),v(),v()),), j),
        ("f", "[[],[[],[],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),),(v(),)),), j),
        ("f", "[[],[[],[],[]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),),v()),), j),
        ("f", "[[],[[],[]],[]]", 0) => forest(|v| (v(),(v(),v(),v()),v(),), j),
        ("f", "[[],[[],[]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),)),(v(),),), j),
        ("f", "[[],[[],[]],[]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),)),v(),), j),
        ("f", "[[],[[]],[[]]]", 0) => forest(|v| (v(),(v(),v()),(v(),v()),), j),
        ("f", "[[],[[]],[[]]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),(v(),)),), j),
        ("f", "[[],[[]],[[]]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),(v(),)),), j),
        ("f", "[[],[[]],[],[]]", 0) => forest(|v| (v(),(v(),v()),v(),v(),), j),
        ("f", "[[],[[]],[],[]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),),(v(),),), j),
        ("f", "[[],[[]],[],[]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),),v(),), j),
        ("f", "[[],[],[[[]]]]", 0) => forest(|v| (v(),v(),(v(),(v(),v())),), j),
        ("f", "[[],[],[[[]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),(v(),))),), j),
        ("f", "[[],[],[[[]]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),(v(),))),), j),
        ("f", "[[],[],[[],[]]]", 0) => forest(|v| (v(),v(),(v(),v(),v()),), j),
        ("f", "[[],[],[[],[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),),(v(),)),), j),
        ("f", "[[],[],[[],[]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),),v()),), j),
        ("f", "[[],[],[[]],[]]", 0) => forest(|v| (v(),v(),(v(),v()),v(),), j),
        ("f", "[[],[],[[]],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),)),(v(),),), j),
        ("f", "[[],[],[[]],[]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),)),v(),), j),
        ("f", "[[],[],[],[[]]]", 0) => forest(|v| (v(),v(),v(),(v(),v()),), j),
        ("f", "[[],[],[],[[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),(v(),)),), j),
        ("f", "[[],[],[],[[]]]", 2) => forest(|v| ((v(),),v(),(v(),),(v(),v()),), j),
        ("f", "[[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[[[[[[]]]]]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),(v(),v()))))),), j),
        ("f", "[[[[[[[]]]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),(v(),)))))),), j),
        ("f", "[[[[[[],[]]]]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v(),v())))),), j),
        ("f", "[[[[[[],[]]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),),(v(),))))),), j),
        ("f", "[[[[[[],[]]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),(v(),),v())))),), j),
        ("f", "[[[[[[]],[]]]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v()),v()))),), j),
        ("f", "[[[[[[]],[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),)),(v(),)))),), j),
        ("f", "[[[[[[]],[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),(v(),)),v()))),), j),
        ("f", "[[[[[[]]],[]]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v())),v())),), j),
        ("f", "[[[[[[]]],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),))),(v(),))),), j),
        ("f", "[[[[[[]]],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),(v(),))),v())),), j),
        ("f", "[[[[[[]]]],[]]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v()))),v()),), j),
        ("f", "[[[[[[]]]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),)))),(v(),)),), j),
        ("f", "[[[[[[]]]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),(v(),)))),v()),), j),
        ("f", "[[[[[[]]]]],[]]", 0) => forest(|v| ((v(),(v(),(v(),(v(),v())))),v(),), j),
        ("f", "[[[[[[]]]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),(v(),))))),(v(),),), j),
        ("f", "[[[[[[]]]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),(v(),))))),v(),), j),
        ("f", "[[[[[],[[]]]]]]", 0) => forest(|v| ((v(),(v(),(v(),v(),(v(),v())))),), j),
        ("f", "[[[[[],[[]]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),(v(),))))),), j),
        ("f", "[[[[[],[[]]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),v())))),), j),
        ("f", "[[[[[],[],[]]]]]", 0) => forest(|v| ((v(),(v(),(v(),v(),v(),v()))),), j),
        ("f", "[[[[[],[],[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),),(v(),)))),), j),
        ("f", "[[[[[],[],[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),v(),(v(),)))),), j),
        ("f", "[[[[[],[]],[]]]]", 0) => forest(|v| ((v(),(v(),(v(),v(),v()),v())),), j),
        ("f", "[[[[[],[]],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),)),(v(),))),), j),
        ("f", "[[[[[],[]],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),v()),(v(),))),), j),
        ("f", "[[[[[],[]]],[]]]", 0) => forest(|v| ((v(),(v(),(v(),v(),v())),v()),), j),
        ("f", "[[[[[],[]]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),))),(v(),)),), j),
        ("f", "[[[[[],[]]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),v())),(v(),)),), j),
        ("f", "[[[[[],[]]]],[]]", 0) => forest(|v| ((v(),(v(),(v(),v(),v()))),v(),), j),
        ("f", "[[[[[],[]]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),),(v(),)))),(v(),),), j),
        ("f", "[[[[[],[]]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),),v()))),(v(),),), j),
        ("f", "[[[[[]],[[]]]]]", 0) => forest(|v| ((v(),(v(),(v(),v()),(v(),v()))),), j),
        ("f", "[[[[[]],[[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),(v(),)))),), j),
        ("f", "[[[[[]],[[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),v()))),), j),
        ("f", "[[[[[]],[],[]]]]", 0) => forest(|v| ((v(),(v(),(v(),v()),v(),v())),), j),
        ("f", "[[[[[]],[],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),),(v(),))),), j),
        ("f", "[[[[[]],[],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)),v(),(v(),))),), j),
        ("f", "[[[[[]],[]],[]]]", 0) => forest(|v| ((v(),(v(),(v(),v()),v()),v()),), j),
        ("f", "[[[[[]],[]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),)),(v(),)),), j),
        ("f", "[[[[[]],[]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)),v()),(v(),)),), j),
        ("f", "[[[[[]],[]]],[]]", 0) => forest(|v| ((v(),(v(),(v(),v()),v())),v(),), j),
        ("f", "[[[[[]],[]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)),(v(),))),(v(),),), j),
        ("f", "[[[[[]],[]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)),v())),(v(),),), j),
        ("f", "[[[[[]]],[[]]]]", 0) => forest(|v| ((v(),(v(),(v(),v())),(v(),v())),), j),
        ("f", "[[[[[]]],[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),))),(v(),(v(),))),), j),
        ("f", "[[[[[]]],[[]]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),))),(v(),v())),), j),
        ("f", "[[[[[]]],[],[]]]", 0) => forest(|v| ((v(),(v(),(v(),v())),v(),v()),), j),
        ("f", "[[[[[]]],[],[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),))),(v(),),(v(),)),), j),
        ("f", "[[[[[]]],[],[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),))),v(),(v(),)),), j),
        ("f", "[[[[[]]],[]],[]]", 0) => forest(|v| ((v(),(v(),(v(),v())),v()),v(),), j),
        ("f", "[[[[[]]],[]],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),))),(v(),)),(v(),),), j),
        ("f", "[[[[[]]],[]],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),))),v()),(v(),),), j),
        ("f", "[[[[[]]]],[[]]]", 0) => forest(|v| ((v(),(v(),(v(),v()))),(v(),v()),), j),
        ("f", "[[[[[]]]],[[]]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)))),(v(),(v(),)),), j),
        ("f", "[[[[[]]]],[[]]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)))),(v(),v()),), j),
        ("f", "[[[[[]]]],[],[]]", 0) => forest(|v| ((v(),(v(),(v(),v()))),v(),v(),), j),
        ("f", "[[[[[]]]],[],[]]", 1) => forest(|v| ((v(),(v(),(v(),(v(),)))),(v(),),(v(),),), j),
        ("f", "[[[[[]]]],[],[]]", 2) => forest(|v| ((v(),(v(),(v(),(v(),)))),v(),(v(),),), j),
        ("f", "[[[[],[[[]]]]]]", 0) => forest(|v| ((v(),(v(),v(),(v(),(v(),v())))),), j),
        ("f", "[[[[],[[[]]]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),(v(),))))),), j),
        ("f", "[[[[],[[[]]]]]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),v())))),), j),
        ("f", "[[[[],[[],[]]]]]", 0) => forest(|v| ((v(),(v(),v(),(v(),v(),v()))),), j),
        ("f", "[[[[],[[],[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),),(v(),)))),), j),
        ("f", "[[[[],[[],[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),v(),(v(),)))),), j),
        ("f", "[[[[],[[]],[]]]]", 0) => forest(|v| ((v(),(v(),v(),(v(),v()),v())),), j),
        ("f", "[[[[],[[]],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),)),(v(),))),), j),
        ("f", "[[[[],[[]],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),v()),(v(),))),), j),
        ("f", "[[[[],[[]]],[]]]", 0) => forest(|v| ((v(),(v(),v(),(v(),v())),v()),), j),
        ("f", "[[[[],[[]]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),))),(v(),)),), j),
        ("f", "[[[[],[[]]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),v())),(v(),)),), j),
        ("f", "[[[[],[[]]]],[]]", 0) => forest(|v| ((v(),(v(),v(),(v(),v()))),v(),), j),
        ("f", "[[[[],[[]]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),(v(),)))),(v(),),), j),
        ("f", "[[[[],[[]]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),),(v(),v()))),(v(),),), j),
        ("f", "[[[[],[],[[]]]]]", 0) => forest(|v| ((v(),(v(),v(),v(),(v(),v()))),), j),
        ("f", "[[[[],[],[[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),),(v(),(v(),)))),), j),
        ("f", "[[[[],[],[[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),),v(),(v(),(v(),)))),), j),
        ("f", "[[[[],[],[],[]]]]", 0) => forest(|v| ((v(),(v(),v(),v(),v(),v())),), j),
        ("f", "[[[[],[],[],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),),(v(),),(v(),))),), j),
        ("f", "[[[[],[],[],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),),v(),(v(),),v())),), j),
        ("f", "[[[[],[],[]],[]]]", 0) => forest(|v| ((v(),(v(),v(),v(),v()),v()),), j),
        ("f", "[[[[],[],[]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),),(v(),)),(v(),)),), j),
        ("f", "[[[[],[],[]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),),v(),(v(),)),v()),), j),
        ("f", "[[[[],[],[]]],[]]", 0) => forest(|v| ((v(),(v(),v(),v(),v())),v(),), j),
        ("f", "[[[[],[],[]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),),(v(),))),(v(),),), j),
        ("f", "[[[[],[],[]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),),v(),(v(),))),v(),), j),
        ("f", "[[[[],[]],[[]]]]", 0) => forest(|v| ((v(),(v(),v(),v()),(v(),v())),), j),
        ("f", "[[[[],[]],[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),)),(v(),(v(),))),), j),
        ("f", "[[[[],[]],[[]]]]", 2) => forest(|v| ((v(),(v(),(v(),),v()),(v(),(v(),))),), j),
        ("f", "[[[[],[]],[],[]]]", 0) => forest(|v| ((v(),(v(),v(),v()),v(),v()),), j),
        ("f", "[[[[],[]],[],[]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),)),(v(),),(v(),)),), j),
        ("f", "[[[[],[]],[],[]]]", 2) => forest(|v| ((v(),(v(),(v(),),v()),(v(),),v()),), j),
        ("f", "[[[[],[]],[]],[]]", 0) => forest(|v| ((v(),(v(),v(),v()),v()),v(),), j),
        ("f", "[[[[],[]],[]],[]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),)),(v(),)),(v(),),), j),
        ("f", "[[[[],[]],[]],[]]", 2) => forest(|v| ((v(),(v(),(v(),),v()),(v(),)),v(),), j),
        ("f", "[[[[],[]]],[[]]]", 0) => forest(|v| ((v(),(v(),v(),v())),(v(),v()),), j),
        ("f", "[[[[],[]]],[[]]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),))),(v(),(v(),)),), j),
        ("f", "[[[[],[]]],[[]]]", 2) => forest(|v| ((v(),(v(),(v(),),v())),(v(),(v(),)),), j),
        ("f", "[[[[],[]]],[],[]]", 0) => forest(|v| ((v(),(v(),v(),v())),v(),v(),), j),
        ("f", "[[[[],[]]],[],[]]", 1) => forest(|v| ((v(),(v(),(v(),),(v(),))),(v(),),(v(),),), j),
        ("f", "[[[[],[]]],[],[]]", 2) => forest(|v| ((v(),(v(),(v(),),v())),(v(),),v(),), j),
        ("f", "[[[[]],[[[]]]]]", 0) => forest(|v| ((v(),(v(),v()),(v(),(v(),v()))),), j),
        ("f", "[[[[]],[[[]]]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),(v(),)))),), j),
        ("f", "[[[[]],[[[]]]]]", 2) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),v()))),), j),
        ("f", "[[[[]],[[],[]]]]", 0) => forest(|v| ((v(),(v(),v()),(v(),v(),v())),), j),
        ("f", "[[[[]],[[],[]]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),),(v(),))),), j),
        ("f", "[[[[]],[[],[]]]]", 2) => forest(|v| ((v(),(v(),(v(),)),(v(),v(),(v(),))),), j),
        ("f", "[[[[]],[[]],[]]]", 0) => forest(|v| ((v(),(v(),v()),(v(),v()),v()),), j),
        ("f", "[[[[]],[[]],[]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),)),(v(),)),), j),
        ("f", "[[[[]],[[]],[]]]", 2) => forest(|v| ((v(),(v(),(v(),)),(v(),v()),(v(),)),), j),
        ("f", "[[[[]],[[]]],[]]", 0) => forest(|v| ((v(),(v(),v()),(v(),v())),v(),), j),
        ("f", "[[[[]],[[]]],[]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),(v(),))),(v(),),), j),
        ("f", "[[[[]],[[]]],[]]", 2) => forest(|v| ((v(),(v(),(v(),)),(v(),v())),(v(),),), j),
        ("f", "[[[[]],[],[[]]]]", 0) => forest(|v| ((v(),(v(),v()),v(),(v(),v())),), j),
        ("f", "[[[[]],[],[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),),(v(),(v(),))),), j),
        ("f", "[[[[]],[],[[]]]]", 2) => forest(|v| ((v(),(v(),(v(),)),v(),(v(),(v(),))),), j),
        ("f", "[[[[]],[],[],[]]]", 0) => forest(|v| ((v(),(v(),v()),v(),v(),v()),), j),
        ("f", "[[[[]],[],[],[]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[[]],[],[],[]]]", 2) => forest(|v| ((v(),(v(),(v(),)),v(),(v(),),v()),), j),
        ("f", "[[[[]],[],[]],[]]", 0) => forest(|v| ((v(),(v(),v()),v(),v()),v(),), j),
        ("f", "[[[[]],[],[]],[]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),),(v(),)),(v(),),), j),
        ("f", "[[[[]],[],[]],[]]", 2) => forest(|v| ((v(),(v(),(v(),)),v(),(v(),)),v(),), j),
        ("f", "[[[[]],[]],[[]]]", 0) => forest(|v| ((v(),(v(),v()),v()),(v(),v()),), j),
        ("f", "[[[[]],[]],[[]]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),)),(v(),(v(),)),), j),
        ("f", "[[[[]],[]],[[]]]", 2) => forest(|v| ((v(),(v(),(v(),)),v()),(v(),(v(),)),), j),
        ("f", "[[[[]],[]],[],[]]", 0) => forest(|v| ((v(),(v(),v()),v()),v(),v(),), j),
        ("f", "[[[[]],[]],[],[]]", 1) => forest(|v| ((v(),(v(),(v(),)),(v(),)),(v(),),(v(),),), j),
        ("f", "[[[[]],[]],[],[]]", 2) => forest(|v| ((v(),(v(),(v(),)),v()),(v(),),v(),), j),
        ("f", "[[[[]]],[[[]]]]", 0) => forest(|v| ((v(),(v(),v())),(v(),(v(),v())),), j),
        ("f", "[[[[]]],[[[]]]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),(v(),(v(),))),), j),
        ("f", "[[[[]]],[[[]]]]", 2) => forest(|v| ((v(),(v(),(v(),))),(v(),(v(),v())),), j),
        ("f", "[[[[]]],[[],[]]]", 0) => forest(|v| ((v(),(v(),v())),(v(),v(),v()),), j),
        ("f", "[[[[]]],[[],[]]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),(v(),),(v(),)),), j),
        ("f", "[[[[]]],[[],[]]]", 2) => forest(|v| ((v(),(v(),(v(),))),(v(),v(),(v(),)),), j),
        ("f", "[[[[]]],[[]],[]]", 0) => forest(|v| ((v(),(v(),v())),(v(),v()),v(),), j),
        ("f", "[[[[]]],[[]],[]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),(v(),)),(v(),),), j),
        ("f", "[[[[]]],[[]],[]]", 2) => forest(|v| ((v(),(v(),(v(),))),(v(),v()),(v(),),), j),
        ("f", "[[[[]]],[],[[]]]", 0) => forest(|v| ((v(),(v(),v())),v(),(v(),v()),), j),
        ("f", "[[[[]]],[],[[]]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),),(v(),(v(),)),), j),
        ("f", "[[[[]]],[],[[]]]", 2) => forest(|v| ((v(),(v(),(v(),))),v(),(v(),(v(),)),), j),
        ("f", "[[[[]]],[],[],[]]", 0) => forest(|v| ((v(),(v(),v())),v(),v(),v(),), j),
        ("f", "[[[[]]],[],[],[]]", 1) => forest(|v| ((v(),(v(),(v(),))),(v(),),(v(),),(v(),),), j),
        ("f", "[[[[]]],[],[],[]]", 2) => forest(|v| ((v(),(v(),(v(),))),v(),(v(),),v(),), j),
        ("f", "[[[],[[[[]]]]]]", 0) => forest(|v| ((v(),v(),(v(),(v(),(v(),v())))),), j),
        ("f", "[[[],[[[[]]]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),(v(),))))),), j),
        ("f", "[[[],[[[[]]]]]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),v())))),), j),
        ("f", "[[[],[[[],[]]]]]", 0) => forest(|v| ((v(),v(),(v(),(v(),v(),v()))),), j),
        ("f", "[[[],[[[],[]]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),),(v(),)))),), j),
        ("f", "[[[],[[[],[]]]]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),v(),(v(),)))),), j),
        ("f", "[[[],[[[]],[]]]]", 0) => forest(|v| ((v(),v(),(v(),(v(),v()),v())),), j),
        ("f", "[[[],[[[]],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),)),(v(),))),), j),
        ("f", "[[[],[[[]],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),v()),(v(),))),), j),
        ("f", "[[[],[[[]]],[]]]", 0) => forest(|v| ((v(),v(),(v(),(v(),v())),v()),), j),
        ("f", "[[[],[[[]]],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),))),(v(),)),), j),
        ("f", "[[[],[[[]]],[]]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),v())),(v(),)),), j),
        ("f", "[[[],[[[]]]],[]]", 0) => forest(|v| ((v(),v(),(v(),(v(),v()))),v(),), j),
        ("f", "[[[],[[[]]]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),(v(),)))),(v(),),), j),
        ("f", "[[[],[[[]]]],[]]", 2) => forest(|v| ((v(),(v(),),(v(),(v(),v()))),(v(),),), j),
        ("f", "[[[],[[],[[]]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),(v(),v()))),), j),
        ("f", "[[[],[[],[[]]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),(v(),)))),), j),
        ("f", "[[[],[[],[[]]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),(v(),)))),), j),
        ("f", "[[[],[[],[],[]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),v(),v())),), j),
        ("f", "[[[],[[],[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),),(v(),))),), j),
        ("f", "[[[],[[],[],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),),v())),), j),
        ("f", "[[[],[[],[]],[]]]", 0) => forest(|v| ((v(),v(),(v(),v(),v()),v()),), j),
        ("f", "[[[],[[],[]],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),)),(v(),)),), j),
        ("f", "[[[],[[],[]],[]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),)),v()),), j),
        ("f", "[[[],[[],[]]],[]]", 0) => forest(|v| ((v(),v(),(v(),v(),v())),v(),), j),
        ("f", "[[[],[[],[]]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),))),(v(),),), j),
        ("f", "[[[],[[],[]]],[]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),))),v(),), j),
        ("f", "[[[],[[]],[[]]]]", 0) => forest(|v| ((v(),v(),(v(),v()),(v(),v())),), j),
        ("f", "[[[],[[]],[[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),)),(v(),(v(),))),), j),
        ("f", "[[[],[[]],[[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v()),(v(),(v(),))),), j),
        ("f", "[[[],[[]],[],[]]]", 0) => forest(|v| ((v(),v(),(v(),v()),v(),v()),), j),
        ("f", "[[[],[[]],[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),)),(v(),),(v(),)),), j),
        ("f", "[[[],[[]],[],[]]]", 2) => forest(|v| ((v(),(v(),),(v(),v()),(v(),),v()),), j),
        ("f", "[[[],[[]],[]],[]]", 0) => forest(|v| ((v(),v(),(v(),v()),v()),v(),), j),
        ("f", "[[[],[[]],[]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),)),(v(),)),(v(),),), j),
        ("f", "[[[],[[]],[]],[]]", 2) => forest(|v| ((v(),(v(),),(v(),v()),(v(),)),v(),), j),
        ("f", "[[[],[[]]],[[]]]", 0) => forest(|v| ((v(),v(),(v(),v())),(v(),v()),), j),
        ("f", "[[[],[[]]],[[]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),))),(v(),(v(),)),), j),
        ("f", "[[[],[[]]],[[]]]", 2) => forest(|v| ((v(),(v(),),(v(),v())),(v(),(v(),)),), j),
        ("f", "[[[],[[]]],[],[]]", 0) => forest(|v| ((v(),v(),(v(),v())),v(),v(),), j),
        ("f", "[[[],[[]]],[],[]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),))),(v(),),(v(),),), j),
        ("f", "[[[],[[]]],[],[]]", 2) => forest(|v| ((v(),(v(),),(v(),v())),(v(),),v(),), j),
        ("f", "[[[],[],[[[]]]]]", 0) => forest(|v| ((v(),v(),v(),(v(),(v(),v()))),), j),
        ("f", "[[[],[],[[[]]]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),(v(),(v(),)))),), j),
        ("f", "[[[],[],[[[]]]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[[],[],[[],[]]]]", 0) => forest(|v| ((v(),v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),(v(),),v())),), j),
        ("f", "[[[],[],[[]],[]]]", 0) => forest(|v| ((v(),v(),v(),(v(),v()),v()),), j),
        ("f", "[[[],[],[[]],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),(v(),)),(v(),)),), j),
        ("f", "[[[],[],[[]],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),(v(),)),v()),), j),
        ("f", "[[[],[],[[]]],[]]", 0) => forest(|v| ((v(),v(),v(),(v(),v())),v(),), j),
        ("f", "[[[],[],[[]]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),(v(),))),(v(),),), j),
        ("f", "[[[],[],[[]]],[]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),(v(),))),v(),), j),
        ("f", "[[[],[],[],[[]]]]", 0) => forest(|v| ((v(),v(),v(),v(),(v(),v())),), j),
        ("f", "[[[],[],[],[[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),),(v(),(v(),))),), j),
        ("f", "[[[],[],[],[[]]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),(v(),v())),), j),
        ("f", "[[[],[],[],[],[]]]", 0) => forest(|v| ((v(),v(),v(),v(),v(),v()),), j),
        ("f", "[[[],[],[],[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[],[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v(),(v(),)),), j),
        ("f", "[[[],[],[],[]],[]]", 0) => forest(|v| ((v(),v(),v(),v(),v()),v(),), j),
        ("f", "[[[],[],[],[]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),),(v(),)),(v(),),), j),
        ("f", "[[[],[],[],[]],[]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v()),(v(),),), j),
        ("f", "[[[],[],[]],[[]]]", 0) => forest(|v| ((v(),v(),v(),v()),(v(),v()),), j),
        ("f", "[[[],[],[]],[[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),)),(v(),(v(),)),), j),
        ("f", "[[[],[],[]],[[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),)),(v(),v()),), j),
        ("f", "[[[],[],[]],[],[]]", 0) => forest(|v| ((v(),v(),v(),v()),v(),v(),), j),
        ("f", "[[[],[],[]],[],[]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),)),(v(),),(v(),),), j),
        ("f", "[[[],[],[]],[],[]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),)),v(),(v(),),), j),
        ("f", "[[[],[]],[[[]]]]", 0) => forest(|v| ((v(),v(),v()),(v(),(v(),v())),), j),
        ("f", "[[[],[]],[[[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),(v(),(v(),))),), j),
        ("f", "[[[],[]],[[[]]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),(v(),(v(),))),), j),
        ("f", "[[[],[]],[[],[]]]", 0) => forest(|v| ((v(),v(),v()),(v(),v(),v()),), j),
        ("f", "[[[],[]],[[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),(v(),),(v(),)),), j),
        ("f", "[[[],[]],[[],[]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),(v(),),v()),), j),
        ("f", "[[[],[]],[[]],[]]", 0) => forest(|v| ((v(),v(),v()),(v(),v()),v(),), j),
        ("f", "[[[],[]],[[]],[]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),(v(),)),(v(),),), j),
        ("f", "[[[],[]],[[]],[]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),(v(),)),v(),), j),
        ("f", "[[[],[]],[],[[]]]", 0) => forest(|v| ((v(),v(),v()),v(),(v(),v()),), j),
        ("f", "[[[],[]],[],[[]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),(v(),(v(),)),), j),
        ("f", "[[[],[]],[],[[]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),(v(),v()),), j),
        ("f", "[[[],[]],[],[],[]]", 0) => forest(|v| ((v(),v(),v()),v(),v(),v(),), j),
        ("f", "[[[],[]],[],[],[]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),(v(),),(v(),),), j),
        ("f", "[[[],[]],[],[],[]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),v(),(v(),),), j),
        ("f", "[[[]],[[[[]]]]]", 0) => forest(|v| ((v(),v()),(v(),(v(),(v(),v()))),), j),
        ("f", "[[[]],[[[[]]]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[[]],[[[[]]]]]", 2) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),v()))),), j),
        ("f", "[[[]],[[[],[]]]]", 0) => forest(|v| ((v(),v()),(v(),(v(),v(),v())),), j),
        ("f", "[[[]],[[[],[]]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),),(v(),))),), j),
        ("f", "[[[]],[[[],[]]]]", 2) => forest(|v| ((v(),(v(),)),(v(),(v(),v(),(v(),))),), j),
        ("f", "[[[]],[[[]],[]]]", 0) => forest(|v| ((v(),v()),(v(),(v(),v()),v()),), j),
        ("f", "[[[]],[[[]],[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),)),(v(),)),), j),
        ("f", "[[[]],[[[]],[]]]", 2) => forest(|v| ((v(),(v(),)),(v(),(v(),v()),(v(),)),), j),
        ("f", "[[[]],[[[]]],[]]", 0) => forest(|v| ((v(),v()),(v(),(v(),v())),v(),), j),
        ("f", "[[[]],[[[]]],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),(v(),))),(v(),),), j),
        ("f", "[[[]],[[[]]],[]]", 2) => forest(|v| ((v(),(v(),)),(v(),(v(),v())),(v(),),), j),
        ("f", "[[[]],[[],[[]]]]", 0) => forest(|v| ((v(),v()),(v(),v(),(v(),v())),), j),
        ("f", "[[[]],[[],[[]]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),),(v(),(v(),))),), j),
        ("f", "[[[]],[[],[[]]]]", 2) => forest(|v| ((v(),(v(),)),(v(),v(),(v(),(v(),))),), j),
        ("f", "[[[]],[[],[],[]]]", 0) => forest(|v| ((v(),v()),(v(),v(),v(),v()),), j),
        ("f", "[[[]],[[],[],[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[]],[[],[],[]]]", 2) => forest(|v| ((v(),(v(),)),(v(),v(),(v(),),v()),), j),
        ("f", "[[[]],[[],[]],[]]", 0) => forest(|v| ((v(),v()),(v(),v(),v()),v(),), j),
        ("f", "[[[]],[[],[]],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),),(v(),)),(v(),),), j),
        ("f", "[[[]],[[],[]],[]]", 2) => forest(|v| ((v(),(v(),)),(v(),v(),(v(),)),v(),), j),
        ("f", "[[[]],[[]],[[]]]", 0) => forest(|v| ((v(),v()),(v(),v()),(v(),v()),), j),
        ("f", "[[[]],[[]],[[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),)),(v(),(v(),)),), j),
        ("f", "[[[]],[[]],[[]]]", 2) => forest(|v| ((v(),(v(),)),(v(),v()),(v(),(v(),)),), j),
        ("f", "[[[]],[[]],[],[]]", 0) => forest(|v| ((v(),v()),(v(),v()),v(),v(),), j),
        ("f", "[[[]],[[]],[],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),(v(),)),(v(),),(v(),),), j),
        ("f", "[[[]],[[]],[],[]]", 2) => forest(|v| ((v(),(v(),)),(v(),v()),(v(),),v(),), j),
        ("f", "[[[]],[],[[[]]]]", 0) => forest(|v| ((v(),v()),v(),(v(),(v(),v())),), j),
        ("f", "[[[]],[],[[[]]]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),(v(),(v(),))),), j),
        ("f", "[[[]],[],[[[]]]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),(v(),(v(),))),), j),
        ("f", "[[[]],[],[[],[]]]", 0) => forest(|v| ((v(),v()),v(),(v(),v(),v()),), j),
        ("f", "[[[]],[],[[],[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),(v(),),(v(),)),), j),
        ("f", "[[[]],[],[[],[]]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),(v(),),v()),), j),
        ("f", "[[[]],[],[[]],[]]", 0) => forest(|v| ((v(),v()),v(),(v(),v()),v(),), j),
        ("f", "[[[]],[],[[]],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),(v(),)),(v(),),), j),
        ("f", "[[[]],[],[[]],[]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),(v(),)),v(),), j),
        ("f", "[[[]],[],[],[[]]]", 0) => forest(|v| ((v(),v()),v(),v(),(v(),v()),), j),
        ("f", "[[[]],[],[],[[]]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),),(v(),(v(),)),), j),
        ("f", "[[[]],[],[],[[]]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),),(v(),v()),), j),
        ("f", "[[[]],[],[],[],[]]", 0) => forest(|v| ((v(),v()),v(),v(),v(),v(),), j),
        ("f", "[[[]],[],[],[],[]]", 1) => forest(|v| ((v(),(v(),)),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[[]],[],[],[],[]]", 2) => forest(|v| ((v(),(v(),)),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[[[[[]]]]]]", 0) => forest(|v| (v(),(v(),(v(),(v(),(v(),v())))),), j),
        ("f", "[[],[[[[[]]]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),(v(),))))),), j),
        ("f", "[[],[[[[[]]]]]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),v())))),), j),
        ("f", "[[],[[[[],[]]]]]", 0) => forest(|v| (v(),(v(),(v(),(v(),v(),v()))),), j),
        ("f", "[[],[[[[],[]]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),),(v(),)))),), j),
        ("f", "[[],[[[[],[]]]]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),v(),(v(),)))),), j),
        ("f", "[[],[[[[]],[]]]]", 0) => forest(|v| (v(),(v(),(v(),(v(),v()),v())),), j),
        ("f", "[[],[[[[]],[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),)),(v(),))),), j),
        ("f", "[[],[[[[]],[]]]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),v()),(v(),))),), j),
        ("f", "[[],[[[[]]],[]]]", 0) => forest(|v| (v(),(v(),(v(),(v(),v())),v()),), j),
        ("f", "[[],[[[[]]],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),))),(v(),)),), j),
        ("f", "[[],[[[[]]],[]]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),v())),(v(),)),), j),
        ("f", "[[],[[[[]]]],[]]", 0) => forest(|v| (v(),(v(),(v(),(v(),v()))),v(),), j),
        ("f", "[[],[[[[]]]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),(v(),)))),(v(),),), j),
        ("f", "[[],[[[[]]]],[]]", 2) => forest(|v| ((v(),),(v(),(v(),(v(),v()))),(v(),),), j),
        ("f", "[[],[[[],[[]]]]]", 0) => forest(|v| (v(),(v(),(v(),v(),(v(),v()))),), j),
        ("f", "[[],[[[],[[]]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),),(v(),(v(),)))),), j),
        ("f", "[[],[[[],[[]]]]]", 2) => forest(|v| ((v(),),(v(),(v(),v(),(v(),(v(),)))),), j),
        ("f", "[[],[[[],[],[]]]]", 0) => forest(|v| (v(),(v(),(v(),v(),v(),v())),), j),
        ("f", "[[],[[[],[],[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),),(v(),),(v(),))),), j),
        ("f", "[[],[[[],[],[]]]]", 2) => forest(|v| ((v(),),(v(),(v(),v(),(v(),),v())),), j),
        ("f", "[[],[[[],[]],[]]]", 0) => forest(|v| (v(),(v(),(v(),v(),v()),v()),), j),
        ("f", "[[],[[[],[]],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),),(v(),)),(v(),)),), j),
        ("f", "[[],[[[],[]],[]]]", 2) => forest(|v| ((v(),),(v(),(v(),v(),(v(),)),v()),), j),
        ("f", "[[],[[[],[]]],[]]", 0) => forest(|v| (v(),(v(),(v(),v(),v())),v(),), j),
        ("f", "[[],[[[],[]]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),),(v(),))),(v(),),), j),
        ("f", "[[],[[[],[]]],[]]", 2) => forest(|v| ((v(),),(v(),(v(),v(),(v(),))),v(),), j),
        ("f", "[[],[[[]],[[]]]]", 0) => forest(|v| (v(),(v(),(v(),v()),(v(),v())),), j),
        ("f", "[[],[[[]],[[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),)),(v(),(v(),))),), j),
        ("f", "[[],[[[]],[[]]]]", 2) => forest(|v| ((v(),),(v(),(v(),v()),(v(),(v(),))),), j),
        ("f", "[[],[[[]],[],[]]]", 0) => forest(|v| (v(),(v(),(v(),v()),v(),v()),), j),
        ("f", "[[],[[[]],[],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),)),(v(),),(v(),)),), j),
        ("f", "[[],[[[]],[],[]]]", 2) => forest(|v| ((v(),),(v(),(v(),v()),(v(),),v()),), j),
        ("f", "[[],[[[]],[]],[]]", 0) => forest(|v| (v(),(v(),(v(),v()),v()),v(),), j),
        ("f", "[[],[[[]],[]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),)),(v(),)),(v(),),), j),
        ("f", "[[],[[[]],[]],[]]", 2) => forest(|v| ((v(),),(v(),(v(),v()),(v(),)),v(),), j),
        ("f", "[[],[[[]]],[[]]]", 0) => forest(|v| (v(),(v(),(v(),v())),(v(),v()),), j),
        ("f", "[[],[[[]]],[[]]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),))),(v(),(v(),)),), j),
        ("f", "[[],[[[]]],[[]]]", 2) => forest(|v| ((v(),),(v(),(v(),v())),(v(),(v(),)),), j),
        ("f", "[[],[[[]]],[],[]]", 0) => forest(|v| (v(),(v(),(v(),v())),v(),v(),), j),
        ("f", "[[],[[[]]],[],[]]", 1) => forest(|v| ((v(),),(v(),(v(),(v(),))),(v(),),(v(),),), j),
        ("f", "[[],[[[]]],[],[]]", 2) => forest(|v| ((v(),),(v(),(v(),v())),(v(),),v(),), j),
        ("f", "[[],[[],[[[]]]]]", 0) => forest(|v| (v(),(v(),v(),(v(),(v(),v()))),), j),
        ("f", "[[],[[],[[[]]]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),(v(),(v(),)))),), j),
        ("f", "[[],[[],[[[]]]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[],[[],[[],[]]]]", 0) => forest(|v| (v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[],[[],[[],[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[],[[],[[],[]]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),(v(),),v())),), j),
        ("f", "[[],[[],[[]],[]]]", 0) => forest(|v| (v(),(v(),v(),(v(),v()),v()),), j),
        ("f", "[[],[[],[[]],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),(v(),)),(v(),)),), j),
        ("f", "[[],[[],[[]],[]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),(v(),)),v()),), j),
        ("f", "[[],[[],[[]]],[]]", 0) => forest(|v| (v(),(v(),v(),(v(),v())),v(),), j),
        ("f", "[[],[[],[[]]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),(v(),))),(v(),),), j),
        ("f", "[[],[[],[[]]],[]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),(v(),))),v(),), j),
        ("f", "[[],[[],[],[[]]]]", 0) => forest(|v| (v(),(v(),v(),v(),(v(),v())),), j),
        ("f", "[[],[[],[],[[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),),(v(),(v(),))),), j),
        ("f", "[[],[[],[],[[]]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),),(v(),v())),), j),
        ("f", "[[],[[],[],[],[]]]", 0) => forest(|v| (v(),(v(),v(),v(),v(),v()),), j),
        ("f", "[[],[[],[],[],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),),(v(),),(v(),)),), j),
        ("f", "[[],[[],[],[],[]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),),v(),(v(),)),), j),
        ("f", "[[],[[],[],[]],[]]", 0) => forest(|v| (v(),(v(),v(),v(),v()),v(),), j),
        ("f", "[[],[[],[],[]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),),(v(),)),(v(),),), j),
        ("f", "[[],[[],[],[]],[]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),),v()),(v(),),), j),
        ("f", "[[],[[],[]],[[]]]", 0) => forest(|v| (v(),(v(),v(),v()),(v(),v()),), j),
        ("f", "[[],[[],[]],[[]]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),)),(v(),(v(),)),), j),
        ("f", "[[],[[],[]],[[]]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),)),(v(),v()),), j),
        ("f", "[[],[[],[]],[],[]]", 0) => forest(|v| (v(),(v(),v(),v()),v(),v(),), j),
        ("f", "[[],[[],[]],[],[]]", 1) => forest(|v| ((v(),),(v(),(v(),),(v(),)),(v(),),(v(),),), j),
        ("f", "[[],[[],[]],[],[]]", 2) => forest(|v| ((v(),),(v(),v(),(v(),)),v(),(v(),),), j),
        ("f", "[[],[[]],[[[]]]]", 0) => forest(|v| (v(),(v(),v()),(v(),(v(),v())),), j),
        ("f", "[[],[[]],[[[]]]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),(v(),(v(),))),), j),
        ("f", "[[],[[]],[[[]]]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),(v(),(v(),))),), j),
        ("f", "[[],[[]],[[],[]]]", 0) => forest(|v| (v(),(v(),v()),(v(),v(),v()),), j),
        ("f", "[[],[[]],[[],[]]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),(v(),),(v(),)),), j),
        ("f", "[[],[[]],[[],[]]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),(v(),),v()),), j),
        ("f", "[[],[[]],[[]],[]]", 0) => forest(|v| (v(),(v(),v()),(v(),v()),v(),), j),
        ("f", "[[],[[]],[[]],[]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),(v(),)),(v(),),), j),
        ("f", "[[],[[]],[[]],[]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),(v(),)),v(),), j),
        ("f", "[[],[[]],[],[[]]]", 0) => forest(|v| (v(),(v(),v()),v(),(v(),v()),), j),
        ("f", "[[],[[]],[],[[]]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),),(v(),(v(),)),), j),
        ("f", "[[],[[]],[],[[]]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),),(v(),v()),), j),
        ("f", "[[],[[]],[],[],[]]", 0) => forest(|v| (v(),(v(),v()),v(),v(),v(),), j),
        ("f", "[[],[[]],[],[],[]]", 1) => forest(|v| ((v(),),(v(),(v(),)),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[[]],[],[],[]]", 2) => forest(|v| ((v(),),(v(),v()),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[[[[]]]]]", 0) => forest(|v| (v(),v(),(v(),(v(),(v(),v()))),), j),
        ("f", "[[],[],[[[[]]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[],[],[[[[]]]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),(v(),(v(),)))),), j),
        ("f", "[[],[],[[[],[]]]]", 0) => forest(|v| (v(),v(),(v(),(v(),v(),v())),), j),
        ("f", "[[],[],[[[],[]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),(v(),),(v(),))),), j),
        ("f", "[[],[],[[[],[]]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),(v(),),v())),), j),
        ("f", "[[],[],[[[]],[]]]", 0) => forest(|v| (v(),v(),(v(),(v(),v()),v()),), j),
        ("f", "[[],[],[[[]],[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),(v(),)),(v(),)),), j),
        ("f", "[[],[],[[[]],[]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),(v(),)),v()),), j),
        ("f", "[[],[],[[[]]],[]]", 0) => forest(|v| (v(),v(),(v(),(v(),v())),v(),), j),
        ("f", "[[],[],[[[]]],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),(v(),))),(v(),),), j),
        ("f", "[[],[],[[[]]],[]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),(v(),))),v(),), j),
        ("f", "[[],[],[[],[[]]]]", 0) => forest(|v| (v(),v(),(v(),v(),(v(),v())),), j),
        ("f", "[[],[],[[],[[]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),),(v(),(v(),))),), j),
        ("f", "[[],[],[[],[[]]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),),(v(),v())),), j),
        ("f", "[[],[],[[],[],[]]]", 0) => forest(|v| (v(),v(),(v(),v(),v(),v()),), j),
        ("f", "[[],[],[[],[],[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),),(v(),),(v(),)),), j),
        ("f", "[[],[],[[],[],[]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),),v(),(v(),)),), j),
        ("f", "[[],[],[[],[]],[]]", 0) => forest(|v| (v(),v(),(v(),v(),v()),v(),), j),
        ("f", "[[],[],[[],[]],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),),(v(),)),(v(),),), j),
        ("f", "[[],[],[[],[]],[]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),),v()),(v(),),), j),
        ("f", "[[],[],[[]],[[]]]", 0) => forest(|v| (v(),v(),(v(),v()),(v(),v()),), j),
        ("f", "[[],[],[[]],[[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),)),(v(),(v(),)),), j),
        ("f", "[[],[],[[]],[[]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),)),(v(),v()),), j),
        ("f", "[[],[],[[]],[],[]]", 0) => forest(|v| (v(),v(),(v(),v()),v(),v(),), j),
        ("f", "[[],[],[[]],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),)),(v(),),(v(),),), j),
        ("f", "[[],[],[[]],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),)),v(),(v(),),), j),
        ("f", "[[],[],[],[[[]]]]", 0) => forest(|v| (v(),v(),v(),(v(),(v(),v())),), j),
        ("f", "[[],[],[],[[[]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),(v(),(v(),))),), j),
        ("f", "[[],[],[],[[[]]]]", 2) => forest(|v| ((v(),),v(),(v(),),(v(),(v(),v())),), j),
        ("f", "[[],[],[],[[],[]]]", 0) => forest(|v| (v(),v(),v(),(v(),v(),v()),), j),
        ("f", "[[],[],[],[[],[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),(v(),),(v(),)),), j),
        ("f", "[[],[],[],[[],[]]]", 2) => forest(|v| ((v(),),v(),(v(),),(v(),v(),(v(),)),), j),
        ("f", "[[],[],[],[[]],[]]", 0) => forest(|v| (v(),v(),v(),(v(),v()),v(),), j),
        ("f", "[[],[],[],[[]],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),(v(),)),(v(),),), j),
        ("f", "[[],[],[],[[]],[]]", 2) => forest(|v| ((v(),),v(),(v(),),(v(),v()),(v(),),), j),
        ("f", "[[],[],[],[],[[]]]", 0) => forest(|v| (v(),v(),v(),v(),(v(),v()),), j),
        ("f", "[[],[],[],[],[[]]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),(v(),)),), j),
        ("f", "[[],[],[],[],[[]]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),(v(),)),), j),
        ("f", "[[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[]],[],[[],[]]]", 0) => forest(|v| ((v(),v(),v()),v(),(v(),v(),v()),), j),
        ("f", "[[[],[]],[],[[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),(v(),(v(),),(v(),)),), j),
        ("f", "[[[],[]],[],[[],[]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),(v(),v(),(v(),)),), j),
        ("f", "[[],[],[[],[[],[]]]]", 0) => forest(|v| (v(),v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[],[],[[],[[],[]]]]", 1) => forest(|v| ((v(),),(v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[],[],[[],[[],[]]]]", 2) => forest(|v| ((v(),),v(),(v(),(v(),),(v(),v(),(v(),))),), j),
        ("f", "[[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[]],[],[[],[[],[]]]]", 0) => forest(|v| ((v(),v(),v()),v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[]],[],[[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),)),(v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[]],[],[[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),v()),(v(),),(v(),v(),(v(),(v(),),v())),), j),
        ("f", "[[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[[],[]]],[],[[],[[],[]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),v())),v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[[],[]]],[],[[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),))),(v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[[],[]]],[],[[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),))),v(),(v(),(v(),),(v(),v(),(v(),))),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),(v(),v(),v()))),v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),)))),(v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[[],[[],[]]]],[],[[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),(v(),),v()))),(v(),),(v(),v(),(v(),(v(),),v())),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 0) => forest(|v| ((v(),v(),(v(),v(),(v(),v(),(v(),v(),v())))),v(),(v(),v(),(v(),v(),v())),), j),
        ("f", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 1) => forest(|v| ((v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),(v(),),(v(),))))),(v(),),(v(),(v(),),(v(),(v(),),(v(),))),), j),
        ("f", "[[[],[[],[[],[[],[]]]]],[],[[],[[],[]]]]", 2) => forest(|v| ((v(),(v(),),(v(),v(),(v(),(v(),),(v(),v(),(v(),))))),v(),(v(),(v(),),(v(),v(),(v(),))),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[]]]", 0) => forest(|v| ((v(),v(),v(),v(),v(),v(),v(),v(),v()),v(),(v(),v(),v(),v(),v(),v(),v(),v(),v()),), j),
        ("f", "[[[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[]]]", 1) => forest(|v| ((v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),(v(),),(v(),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),)),), j),
        ("f", "[[[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 0) => forest(|v| (v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 1) => forest(|v| ((v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),), j),
        ("f", "[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]", 2) => forest(|v| ((v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),), j),
        ("f", "[[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),), j),
        ("f", "[[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),v(),(v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),), j),
        ("f", "[[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]],[],[[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[],[]]]", 2) => forest(|v| ((v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v()),(v(),),(v(),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),),v(),(v(),)),), j),
        _ => return false,
    }
    true
}
