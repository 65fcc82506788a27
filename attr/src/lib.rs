//! Only here to have its dependencies built; see bin/attr.
