//! Immediate post-dominators of a MIR body (normal, non-unwinding edges only).
use rustc_middle::mir::{BasicBlock, Body, TerminatorKind};

pub fn succs(b: &Body<'_>, bb: BasicBlock) -> Vec<usize> {
    match &b.basic_blocks[bb].terminator().kind {
        TerminatorKind::Goto { target, .. } => vec![target.as_usize()],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().iter().map(|t| t.as_usize()).collect(),
        TerminatorKind::Drop { target, .. } => vec![target.as_usize()],
        TerminatorKind::Call { target: Some(t), .. } => vec![t.as_usize()],
        TerminatorKind::Assert { target, .. } => vec![target.as_usize()],
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![real_target.as_usize()],
        _ => vec![],
    }
}

pub fn ipdoms(b: &Body<'_>) -> Vec<Option<BasicBlock>> {
    let n = b.basic_blocks.len();
    let exit = n;
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1]; // edges of the reversed graph: from v to its CFG preds
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        let bb = BasicBlock::from_usize(i);
        let mut s = succs(b, bb);
        if matches!(b.basic_blocks[bb].terminator().kind, TerminatorKind::Return) {
            s.push(exit);
        }
        for t in &s {
            pred[*t].push(i);
        }
        succ[i] = s;
    }
    // postorder on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((v, i)) = stack.pop() {
        if i < pred[v].len() {
            stack.push((v, i + 1));
            let w = pred[v][i];
            if !seen[w] {
                seen[w] = true;
                stack.push((w, 0));
            }
        } else {
            order.push(v);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, v) in order.iter().enumerate() {
        num[*v] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &v in order.iter().rev() {
            if v == exit {
                continue;
            }
            let mut new = usize::MAX;
            for &s in &succ[v] {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut c) = (new, s);
                    while a != c {
                        while num[a] < num[c] {
                            a = idom[a];
                        }
                        while num[c] < num[a] {
                            c = idom[c];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[v] != new {
                idom[v] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| if idom[i] == usize::MAX || idom[i] == exit { None } else { Some(BasicBlock::from_usize(idom[i])) })
        .collect()
}
