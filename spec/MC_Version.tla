---- MODULE MC_Version ----
EXTENDS Versions
mcTags == {"v1.0", "v2.0-rc1+x", "nightly-7"}
mcTagsL == {"v1.0", "v1.1", "v2.0-rc1+x", "nightly-7"}
====
