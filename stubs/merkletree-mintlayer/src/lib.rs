//! Stand-in for the merkletree-mintlayer crate (not in the offline cache): the root, leaves and
//! single-leaf proofs of a binary hash tree whose leaves are padded to a power of two, each padding
//! leaf being hash_single of the one before it. The roots agree with the fixed values in
//! common/src/chain/block/block_body/merkle_tools.rs.

#[derive(thiserror::Error, Debug, PartialEq, Eq, Clone)]
pub enum MerkleTreeFormError {
    #[error("Merkle tree input too small: {0}")]
    TooSmall(usize),
}

#[derive(thiserror::Error, Debug, PartialEq, Eq, Clone)]
pub enum MerkleTreeProofExtractionError {
    #[error("Leaf index out of range: {0} vs {1}")]
    LeafIndexOutOfRange(u32, u32),
}

pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType: Clone;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}

pub mod tree {
    use super::{hasher::PairHasher, MerkleTreeFormError};
    use std::num::NonZeroU32;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct MerkleTree<T, H> {
        /// levels[0] are the (padded) leaves; the last level is the root
        pub(crate) levels: Vec<Vec<T>>,
        _h: std::marker::PhantomData<H>,
    }

    pub struct Node<'a, T> {
        hash: &'a T,
    }
    impl<'a, T> Node<'a, T> {
        pub fn hash(&self) -> &'a T {
            self.hash
        }
    }

    impl<T: Clone, H: PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut leaves: Vec<T> = leaves.into_iter().collect();
            if leaves.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            let n = leaves.len().next_power_of_two();
            while leaves.len() < n {
                let next = H::hash_single(&leaves[leaves.len() - 1]);
                leaves.push(next);
            }
            let mut levels = vec![leaves];
            while levels[levels.len() - 1].len() > 1 {
                let last = &levels[levels.len() - 1];
                let next = last.chunks(2).map(|c| H::hash_pair(&c[0], &c[1])).collect();
                levels.push(next);
            }
            Ok(Self { levels, _h: std::marker::PhantomData })
        }
        pub fn root(&self) -> T {
            self.levels[self.levels.len() - 1][0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels[0].len() as u32).unwrap()
        }
        pub fn level_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.len() as u32).unwrap()
        }
        pub fn total_node_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.iter().map(|l| l.len() as u32).sum()).unwrap()
        }
        pub fn node_from_bottom(&self, level_from_bottom: u32, index: u32) -> Option<Node<'_, T>> {
            let l = self.levels.get(level_from_bottom as usize)?;
            l.get(index as usize).map(|hash| Node { hash })
        }
    }
}

pub mod proof {
    pub mod single {
        use crate::{hasher::PairHasher, tree::MerkleTree, MerkleTreeProofExtractionError};

        pub struct SingleProofNodes<T, H> {
            leaf_index: u32,
            branch: Vec<T>,
            _h: std::marker::PhantomData<H>,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofHashes<T, H> {
            leaf_index_in_level: u32,
            branch: Vec<T>,
            _h: std::marker::PhantomData<H>,
        }
        impl<T: Clone, H: PairHasher<NodeType = T>> SingleProofNodes<T, H> {
            pub fn from_tree_leaf(tree: &MerkleTree<T, H>, leaf_index: u32) -> Result<Self, MerkleTreeProofExtractionError> {
                let n = tree.leaf_count().get();
                if leaf_index >= n {
                    return Err(MerkleTreeProofExtractionError::LeafIndexOutOfRange(leaf_index, n));
                }
                let mut branch = vec![];
                let mut i = leaf_index as usize;
                for l in &tree.levels[..tree.levels.len() - 1] {
                    branch.push(l[i ^ 1].clone());
                    i /= 2;
                }
                Ok(Self { leaf_index, branch, _h: std::marker::PhantomData })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                SingleProofHashes { leaf_index_in_level: self.leaf_index, branch: self.branch, _h: std::marker::PhantomData }
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum ProofVerifyResult {
            PassedTrivially,
            PassedDecisively,
            Failed,
        }
        impl ProofVerifyResult {
            pub fn passed(&self) -> bool {
                !matches!(self, Self::Failed)
            }
            pub fn passed_decisively(&self) -> bool {
                matches!(self, Self::PassedDecisively)
            }
        }
        impl<T: Clone + Eq, H: PairHasher<NodeType = T>> SingleProofHashes<T, H> {
            pub fn verify(&self, leaf: T, root: T) -> ProofVerifyResult {
                if self.branch.is_empty() {
                    return if leaf == root { ProofVerifyResult::PassedTrivially } else { ProofVerifyResult::Failed };
                }
                let mut h = leaf;
                let mut i = self.leaf_index_in_level;
                for b in &self.branch {
                    h = if i % 2 == 0 { H::hash_pair(&h, b) } else { H::hash_pair(b, &h) };
                    i /= 2;
                }
                if h == root { ProofVerifyResult::PassedDecisively } else { ProofVerifyResult::Failed }
            }
            pub fn branch(&self) -> &[T] {
                &self.branch
            }
            pub fn leaf_index_in_level(&self) -> u32 {
                self.leaf_index_in_level
            }
        }
    }
}
