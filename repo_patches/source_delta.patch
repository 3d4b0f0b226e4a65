From 4ab7e9148b2fea00496712c0ddafc1046d119b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/93] fix: honour constraints on a fresh, uncommitted disk
 label

_partition_align() skipped the alignment whenever needs_clobber was set,
meaning to skip it while a label is read.  needs_clobber is also set from
ped_disk_new_fresh() until the first commit, so partitions added to a fresh
label ignored every constraint: they could overlap each other and the
label's own metadata.
---
 libparted/disk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..0e7c6a6 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -64,6 +64,10 @@ static int _disk_raw_insert_after (PedDisk* disk, PedPartition* loc,
 static int _disk_raw_remove (PedDisk* disk, PedPartition* part);
 static int _disk_raw_add (PedDisk* disk, PedPartition* part);
 
+/* Value of PedDisk.needs_clobber while ped_disk_new () reads a label, as opposed
+   to a fresh label that has not been committed yet.  */
+#define NEEDS_CLOBBER_READING	2
+
 static PedDiskType*	disk_types = NULL;
 
 void
@@ -198,6 +202,7 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
+	disk->needs_clobber = NEEDS_CLOBBER_READING;
 	if (!type->ops->read (disk))
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
@@ -951,7 +956,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->needs_clobber == NEEDS_CLOBBER_READING)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From baa63845e6d50808da950d9660dedd06064a63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 02/93] fix: restore a partition's geometry before leaving
 update mode

When ped_disk_set_partition_geom() failed, the free space and metadata
placeholders were rebuilt from the refused geometry.
---
 libparted/disk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0e7c6a6..022c3e7 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2343,6 +2343,7 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From 49b17da8fc71e70e610322a225966cfcb51994a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 03/93] fix: abs_mod() of a negative multiple of the modulus is
 zero

ped_alignment_new (-4, 4) had the offset 4, and ped_round_down_to (-4, 4)
was -8.
---
 libparted/cs/natmath.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index ea53afc..3bcf029 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -59,10 +59,9 @@ const PedAlignment* ped_alignment_none = NULL;
 static PedSector
 abs_mod (PedSector a, PedSector b)
 {
-	if (a < 0)
-		return a % b + b;
-	else
-		return a % b;
+	PedSector r = a % b;
+
+	return r < 0 ? r + b : r;
 }
 
 /* Rounds a number down to the closest number that is a multiple of
-- 
2.43.0


From 54a6a599154a2d243f000dc7ae4adf9edc9919a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 04/93] fix: ped_geometry_map() accepted the sector just past
 the destination

---
 libparted/cs/geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 99280ac..e2d0246 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -478,7 +478,7 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 		return -1;
 
 	result = src->start + sector - dst->start;
-	if (result < 0 || result > dst->length)
+	if (result < 0 || result >= dst->length)
 		return -1;
 
 	return result;
-- 
2.43.0


From 610b402f917cac5d8ccee1cd6e3d2cec87a91881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 05/93] fix: accept a constraint whose smallest region starts
 at sector 0

The last sector of a region of min_size sectors that starts at sector 0 is
min_size - 1, so a last possible end of min_size - 1 leaves room for it.
---
 libparted/cs/constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index 146c318..c9693f6 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -310,7 +310,7 @@ _constraint_get_canonical_start_range (const PedConstraint* constraint)
 			constraint->end_range->end);
 	if (first_end_soln == -1 || last_end_soln == -1
 	    || first_end_soln > last_end_soln
-	    || last_end_soln < constraint->min_size)
+	    || last_end_soln < constraint->min_size - 1)
 		return NULL;
 
 	min_start = first_end_soln - constraint->max_size + 1;
-- 
2.43.0


From f935a454d36d379b937d92af7c7ecda2d851c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 06/93] fix: keep the msdos extended partition's metadata
 inside it

An extended partition shorter than a track got no metadata region at all,
because the region reached beyond the partition and could not be added.
---
 libparted/labels/dos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..0349a13 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2496,7 +2496,8 @@ msdos_alloc_metadata (PedDisk* disk)
 
 		partition_probe_bios_geometry (ext_part, &bios_geom);
 		start = ext_part->geom.start;
-		end = start + bios_geom.sectors - 1;
+		end = PED_MIN (start + bios_geom.sectors - 1,
+			       ext_part->geom.end);
 		if (ext_part->part_list)
 			end = PED_MIN (end,
 				       ext_part->part_list->geom.start - 1);
-- 
2.43.0


From b9c929d0908238f90bcfb5657c4227f6c52bc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 07/93] fix: leave a partition alone when it cannot be
 maximised

After a failed attempt the old geometry was set again under a constraint that
accepts anything, so a partition that is not aligned to cylinders was moved.
---
 libparted/disk.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 022c3e7..96d5a3a 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2362,13 +2362,11 @@ int
 ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 			     const PedConstraint* constraint)
 {
-	PedGeometry	old_geom;
 	PedSector	global_min_start;
 	PedSector	global_max_end;
 	PedSector	new_start;
 	PedSector	new_end;
 	PedPartition*	ext_part = ped_disk_extended_partition (disk);
-	PedConstraint*	constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (part != NULL);
@@ -2382,8 +2380,6 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 		global_max_end = disk->dev->length - 1;
 	}
 
-	old_geom = part->geom;
-
 	if (!_disk_push_update_mode (disk))
 		return 0;
 
@@ -2406,10 +2402,7 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error:
-	constraint_any = ped_constraint_any (disk->dev);
-	ped_disk_set_partition_geom (disk, part, constraint_any,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_any);
+	/* ped_disk_set_partition_geom left the old geometry in place */
 	_disk_pop_update_mode (disk);
 	return 0;
 }
-- 
2.43.0


From 00619b14ff13bfcc9de5b255b3ede3278c83a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 08/93] fix: write the whole sector of an empty msdos extended
 table

With sectors larger than 512 bytes, whatever followed the table on the stack
was written to the disk.
---
 libparted/labels/dos.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 0349a13..3cc961e 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1394,19 +1394,21 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
+	DosRawTable*		table;
 	void*			table_sector;
+	int			ok;
 
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	if (!ptt_read_sector (disk->dev, sector, &table_sector))
+		return 0;
+	table = table_sector;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	ok = ped_device_write (disk->dev, table_sector, sector, 1);
+	free (table_sector);
+	return ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
-- 
2.43.0


From 266612b9da47437abff958c1de4ffd0e2eebd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 09/93] fix: do not write uninitialised memory behind amiga
 partition blocks

A partition block takes 256 bytes of its sector; the rest was left as it came
from malloc, both for new partitions and for those read from the disk.
---
 libparted/labels/rdb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 499d385..2e9c7f8 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -536,7 +536,8 @@ amiga_read (PedDisk* disk)
 			return 0;
 		}
 		/* And copy over the partition block */
-		memcpy(part->disk_specific, partition, 256);
+		memcpy(part->disk_specific, partition,
+		       disk->dev->sector_size);
 
 		part->num = i;
 		part->type = 0;
@@ -798,7 +799,7 @@ amiga_partition_new (const PedDisk* disk, PedPartitionType part_type,
 			return NULL;
 		}
 		partition = PART(part->disk_specific);
-		memset(partition, 0, sizeof(struct PartitionBlock));
+		memset(partition, 0, disk->dev->sector_size);
 
 		partition->pb_ID = PED_CPU_TO_BE32(IDNAME_PARTITION);
 		partition->pb_SummedLongs = PED_CPU_TO_BE32(64);
-- 
2.43.0


From 3193a93ffd95387673b50699e4cb4a33a03cd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 10/93] fix: keep the number of a duplicated amiga partition

---
 libparted/labels/rdb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 2e9c7f8..9381442 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -856,7 +856,8 @@ amiga_partition_duplicate (const PedPartition* part)
 		return NULL;
 
 	new_amiga_part = (struct PartitionBlock *) new_part->disk_specific;
-	memcpy (new_amiga_part, old_amiga_part, 256);
+	memcpy (new_amiga_part, old_amiga_part, part->disk->dev->sector_size);
+	new_part->num = part->num;
 
 	return new_part;
 }
-- 
2.43.0


From 88be74cb7b767b036bb2f833d74ea9b1cacd0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 11/93] fix: duplicate a loop label with one partition, not two

---
 libparted/labels/loop.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 45d169d..819a0b3 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -103,7 +103,11 @@ loop_alloc (const PedDevice* dev)
 static PedDisk*
 loop_duplicate (const PedDisk* disk)
 {
-	return ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	PedDisk *new_disk = ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	/* remove the partition, it will be duplicated later */
+	if (new_disk)
+		ped_disk_delete_all (new_disk);
+	return new_disk;
 }
 
 static void
-- 
2.43.0


From bf67f153269d908efac099aa31f2030624ded747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 12/93] fix: use every entry of a new mac partition map

A new map was taken to have one entry less than the same map has once it is
read back, so committing it again changed the disk, and its last sector was
left as it was.
---
 libparted/labels/mac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 6711d87..2c1e995 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -253,7 +253,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
-		= new_part->geom.end - mac_disk_data->ghost_size;
+		= new_part->geom.end - mac_disk_data->ghost_size + 1;
 	ped_constraint_destroy (constraint_any);
 	return 1;
 
-- 
2.43.0


From 5f5ae3397c1d1d5b167fa08caf511b73bfca25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 13/93] fix: duplicate a dvh label with its flags and one
 volume header

The duplicate had two extended partitions, and its boot, root and swap
numbers were not initialised.
---
 libparted/labels/dvh.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7d7dae3..699134e 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -133,20 +133,14 @@ dvh_duplicate (const PedDisk* disk)
 
 	new_disk = ped_disk_new_fresh (disk->dev, &dvh_disk_type);
 	if (!new_disk)
-		goto error;
+		return NULL;
 
-	new_disk->disk_specific = new_dvh_disk_data
-		= ped_malloc (sizeof (DVHDiskData));
-	if (!new_dvh_disk_data)
-		goto error_free_new_disk;
+	/* remove the volume header partition - it will be duplicated later */
+	ped_disk_delete_all (new_disk);
 
-	new_dvh_disk_data->dev_params = old_dvh_disk_data->dev_params;
+	new_dvh_disk_data = new_disk->disk_specific;
+	*new_dvh_disk_data = *old_dvh_disk_data;
 	return new_disk;
-
-error_free_new_disk:
-	free (new_disk);
-error:
-	return NULL;
 }
 
 static void
-- 
2.43.0


From adbc2ce89584489e9c7b107191b7dad6f2e34fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 14/93] fix: clear a dvh flag only on the partition that has it

---
 libparted/labels/dvh.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 699134e..72ce790 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -610,7 +610,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->root = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->root = part->num;
+		else if (dvh_disk_data->root == part->num)
+			dvh_disk_data->root = 0;
 		break;
 
 	case PED_PARTITION_SWAP:
@@ -624,7 +627,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 			return 0;
 #endif
 		}
-		dvh_disk_data->swap = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->swap = part->num;
+		else if (dvh_disk_data->swap == part->num)
+			dvh_disk_data->swap = 0;
 		break;
 
 	case PED_PARTITION_BOOT:
@@ -638,7 +644,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->boot = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->boot = part->num;
+		else if (dvh_disk_data->boot == part->num)
+			dvh_disk_data->boot = 0;
 		break;
 
 	case PED_PARTITION_LVM:
-- 
2.43.0


From 8abe9aa6c37f7ed0c57411afeb8c72c0be00228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 15/93] fix: do not read beyond the end of a short dvh
 partition name

---
 libparted/labels/dvh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 72ce790..ab94b9f 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -712,7 +712,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 
 	if (part->type == PED_PARTITION_LOGICAL) {
 		/* Bootfile */
-		memcpy (dvh_part_data->name, name, VDNAMESIZE);
+		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
 	} else {
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From db22ec5aa9f1b1377cdd2c75042c65845964bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 16/93] fix: do not take an unnamed dvh boot file for the one
 to boot

---
 libparted/labels/dvh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index ab94b9f..45f16ff 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -376,7 +376,8 @@ dvh_read (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 		part->num = NPARTAB + i + 1;
 
-		if (!strcmp (boot_name, ped_partition_get_name (part)))
+		if (*boot_name
+		    && !strcmp (boot_name, ped_partition_get_name (part)))
 			ped_partition_set_flag (part, PED_PARTITION_BOOT, 1);
 
 		PedConstraint *constraint_exact
-- 
2.43.0


From ce3df57b5b6ffdbbba1e30eefa8e273645298f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 17/93] fix: refuse a sixteenth dvh boot file instead of
 aborting

---
 libparted/labels/dvh.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 45f16ff..9a71f4d 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -795,7 +795,10 @@ dvh_partition_enumerate (PedPartition* part)
 				return 1;
 			}
 		}
-		PED_ASSERT (0);
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many boot files"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
-- 
2.43.0


From e1044280585637f2dd7a61a15cd10108ec5ff3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 18/93] fix: record the length a dvh boot file has when the
 label is written

The length was the one asked for when the partition was made, not the one it
got, and later changes were lost; a length that is no multiple of 512 bytes
was rounded down when it was read.
---
 libparted/labels/dvh.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 9a71f4d..b4ba0b9 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -56,7 +56,7 @@ typedef struct _DVHDiskData {
 typedef struct _DVHPartData {
 	int	type;
 	char	name[VDNAMESIZE + 1];	/* boot volumes only */
-	int	real_file_size;		/* boot volumes only */
+	uint32_t real_file_size;	/* boot volumes only */
 } DVHPartData;
 
 static PedDiskType dvh_disk_type;
@@ -235,10 +235,10 @@ _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 	PedPartition*	part;
 	DVHPartData*	dvh_part_data;
 	PedSector	start = PED_BE32_TO_CPU (vd->vd_lbn);
-	int		length = PED_BE32_TO_CPU (vd->vd_nbytes);
+	uint32_t	length = PED_BE32_TO_CPU (vd->vd_nbytes);
 
 	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL,
-				  start, start + length/512 - 1);
+				  start, start + (length + 511LL) / 512 - 1);
 	if (!part)
 		return NULL;
 
@@ -422,6 +422,10 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	/* Assert it's a bootfile */
 	PED_ASSERT ((part->type & PED_PARTITION_LOGICAL) != 0);
 
+	/* the partition may have been aligned or resized meanwhile */
+	if ((dvh_part_data->real_file_size + 511LL) / 512
+			!= part->geom.length)
+		dvh_part_data->real_file_size = part->geom.length * 512;
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
-- 
2.43.0


From 87213da5a4fa7b81687e9769b6167ede1be2dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 19/93] fix: write a missing dvh volume header only if the user
 asked for it

Merely reading the label wrote to the disk if the exception was not handled.
---
 libparted/labels/dvh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index b4ba0b9..efa8064 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -171,11 +171,12 @@ _handle_no_volume_header (PedDisk* disk)
 	PedPartition*		part;
 	PedConstraint*		constraint;
 
-	switch (ped_exception_throw (
+	ret = ped_exception_throw (
 		PED_EXCEPTION_WARNING,
 		PED_EXCEPTION_FIX + PED_EXCEPTION_CANCEL,
 		_("%s has no extended partition (volume header partition)."),
-		disk->dev->path)) {
+		disk->dev->path);
+	switch (ret) {
 		case PED_EXCEPTION_UNHANDLED:
 		case PED_EXCEPTION_FIX:
 		default:
@@ -191,7 +192,6 @@ _handle_no_volume_header (PedDisk* disk)
 			if (!ped_disk_add_partition (disk, part, constraint))
 				goto error_destroy_constraint;
 			ped_constraint_destroy (constraint);
-			ret = PED_EXCEPTION_FIX;
 			break;
 
 		case PED_EXCEPTION_CANCEL:
-- 
2.43.0


From 73062176b22efa4d103b3892a47e5ffcb45c2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 20/93] fix: allow a dvh volume header to be added

It got its number, but the request was refused without any message.
---
 libparted/labels/dvh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index efa8064..7bc363a 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -806,6 +806,7 @@ dvh_partition_enumerate (PedPartition* part)
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
+		return 1;
 	} else {
 		for (i = 1; i <= NPARTAB; i++) {
 			/* reserved for full volume partition */
-- 
2.43.0


From 8aab0493e1330c395ab76fd775555ced0f429e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 21/93] fix: leave room for every logical partition's record
 when shrinking an msdos extended partition

---
 libparted/labels/dos.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 3cc961e..5be87f8 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1893,6 +1893,8 @@ _primary_start_constraint (const PedDisk* disk,
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (min_geom) {
+		if (start_pos > min_geom->start)
+			return NULL;
 		if (!ped_geometry_init (&start_geom, dev, start_pos, 1))
 			return NULL;
 		if (!ped_geometry_init (&end_geom, dev, min_geom->end,
@@ -1984,14 +1986,15 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 	 * room for LILO.  See linux/fs/partitions/msdos.c.
 	 */
 	ped_geometry_set_start (min_geom,
-				walk->geom.start - PED_MAX (1 * head_size, 2));
+				PED_MAX (walk->geom.start
+					 - PED_MAX (1 * head_size, 2), 0));
 
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		if (walk->geom.start - 2 * head_size < min_geom->start)
 			ped_geometry_set_start (min_geom,
-					walk->geom.start - 2 * head_size);
+				PED_MAX (walk->geom.start - 2 * head_size, 0));
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
 	}
@@ -2189,6 +2192,11 @@ _no_geom_extended_constraint (const PedPartition* part)
 	PedConstraint*	constraint;
 
 	if (min) {
+		/* sector 0 is not available */
+		if (min->start < 1) {
+			ped_geometry_destroy (min);
+			return NULL;
+		}
 		ped_geometry_init (&start_range, dev, 1, min->start);
 		ped_geometry_init (&end_range, dev, min->end,
 				   dev->length - min->end);
-- 
2.43.0


From cc9635114ce640c23a30c63132cd590510f1db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 22/93] fix: do not abort when a partition's geometry would not
 be accepted again

---
 libparted/disk.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 96d5a3a..1b43b59 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2419,7 +2419,6 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 {
 	PedGeometry	old_geom;
 	PedGeometry*	max_geom;
-	PedConstraint*	constraint_exact;
 
 	PED_ASSERT(disk != NULL);
 	PED_ASSERT(part != NULL);
@@ -2430,17 +2429,23 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 		return NULL;
 	max_geom = ped_geometry_duplicate (&part->geom);
 
-	constraint_exact = ped_constraint_exact (&old_geom);
-	ped_disk_set_partition_geom (disk, part, constraint_exact,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_exact);
-
-	/* this assertion should never fail, because the old
-	 * geometry was valid
+	/* Put the old geometry back without asking the label: it need not
+	 * be one that the label would accept now.
 	 */
-	PED_ASSERT (ped_geometry_test_equal (&part->geom, &old_geom));
+	if (!_disk_push_update_mode (disk))
+		goto error;
+	part->geom = old_geom;
+	_disk_raw_remove (disk, part);
+	_disk_raw_add (disk, part);
+	if (!_disk_pop_update_mode (disk))
+		goto error;
 
 	return max_geom;
+
+error:
+	if (max_geom)
+		ped_geometry_destroy (max_geom);
+	return NULL;
 }
 
 /**
-- 
2.43.0


From 593754da0c94747cc6c10860768f55c8d99ab02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 23/93] fix: make the mac boot, lvm and raid flags exclusive,
 and let them be cleared

The three share the partition's type name, of which only one can be
recorded; is_lvm and is_raid were never reset, so that clearing either
flag changed the type on disk but still showed the flag.
---
 libparted/labels/mac.c | 49 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 2c1e995..4ef0af6 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1195,6 +1195,12 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 		return 1;
 	}
 
+	if (mac_data->is_lvm || mac_data->is_raid) {
+		strcpy (mac_data->system_name,
+			mac_data->is_lvm ? "Linux_LVM" : "Linux_RAID");
+		return 1;
+	}
+
 	if (fs_type && (!strcmp (fs_type->name, "hfs")
 			|| !strcmp (fs_type->name, "hfs+"))) {
 		strcpy (mac_data->system_name, "Apple_HFS");
@@ -1222,16 +1228,13 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	switch (flag) {
 	case PED_PARTITION_BOOT:
+		if (!state && !mac_data->is_boot)
+			return 1;
 		mac_data->is_boot = state;
-
-		if (part->fs_type)
-			return mac_partition_set_system (part, part->fs_type);
-
-		if (state) {
-			strcpy (mac_data->system_name, "Apple_Bootstrap");
-			mac_data->status = 0x33;
-		}
-		return 1;
+		/* boot, lvm and raid share the partition's type */
+		if (state)
+			mac_data->is_lvm = mac_data->is_raid = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	case PED_PARTITION_ROOT:
 		if (state) {
@@ -1256,24 +1259,20 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 		return 1;
 
 	case PED_PARTITION_LVM:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_LVM");
-			mac_data->is_lvm = state;
-		} else {
-			if (mac_data->is_lvm)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		if (!state && !mac_data->is_lvm)
+			return 1;
+		mac_data->is_lvm = state;
+		if (state)
+			mac_data->is_boot = mac_data->is_raid = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	case PED_PARTITION_RAID:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_RAID");
-			mac_data->is_raid = state;
-		} else {
-			if (mac_data->is_raid)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		if (!state && !mac_data->is_raid)
+			return 1;
+		mac_data->is_raid = state;
+		if (state)
+			mac_data->is_boot = mac_data->is_lvm = 0;
+		return mac_partition_set_system (part, part->fs_type);
 
 	default:
 		return 0;
-- 
2.43.0


From e298bf4d35f4b800eeb16eaeb12e226cd60d2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 24/93] fix: cut a mac partition name at the 31 characters that
 are recorded

---
 libparted/labels/mac.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 4ef0af6..a722b48 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1349,8 +1349,9 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	}
 #endif
 
-	strncpy (mac_data->volume_name, name, 32);
-	mac_data->volume_name [32] = 0;
+	/* the name on disk is NUL terminated within its 32 bytes */
+	strncpy (mac_data->volume_name, name, 31);
+	mac_data->volume_name [31] = 0;
 	for (i = strlen (mac_data->volume_name) - 1;
 			mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
-- 
2.43.0


From 0d9b7c8cc864c142d8f30f0ec524851af89276e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 25/93] fix: allow an msdos logical partition to be moved past
 the next one

The partition being moved already has its new geometry but keeps its place
in the list, so that the search for the space around it stopped there.
---
 libparted/labels/dos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 5be87f8..2b5b966 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2090,7 +2090,8 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	max_end = ext_part->geom.end;
 
 	while (walk != NULL             /*      2)                         2) */
-		&& (   walk->geom.start - (walk->num != 5) < geom->start - not_5
+		&& (   walk == part
+		    || walk->geom.start - (walk->num != 5) < geom->start - not_5
 		    || walk->geom.start - (walk->num != 5) <= min_start )) {
 		if (walk != part && ped_partition_is_active (walk))
 			min_start = walk->geom.end + 1 + not_5; /* 2) */
-- 
2.43.0


From bbaf0280726bc353b730c41d7c00acc1e568f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 26/93] fix: refuse an msdos partition type id that contradicts
 the partition

With id 0 the partition was not recorded at all, and an extended id on a
primary or logical partition, or another id on an extended one, made the
committed table unreadable.
---
 libparted/labels/dos.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 2b5b966..b68e311 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1731,6 +1731,20 @@ int
 msdos_partition_set_type_id (PedPartition* part, uint8_t id)
 {
         DosPartitionData* dos_data = part->disk_specific;
+        bool is_ext = (id == PARTITION_DOS_EXT || id == PARTITION_EXT_LBA
+                       || id == PARTITION_LINUX_EXT);
+
+        /* The id tells whether an entry is in use and whether it is an
+           extended partition, it must not contradict the partition.  */
+        if (id == PARTITION_EMPTY
+            || is_ext != (part->type == PED_PARTITION_EXTENDED)) {
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR,
+                        PED_EXCEPTION_CANCEL,
+                        _("The partition type id 0x%02x can't be used for "
+                          "this partition."), id);
+                return 0;
+        }
 
         dos_data->system = id;
 
-- 
2.43.0


From 17291671d1e55b505460bfc1490a1c809a604d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 27/93] fix: cut a gpt partition name at the 36 characters that
 are recorded

A longer name was shown in full until the commit silently cut it, and a
name of exactly 36 characters was reported as impossible to translate
because room for a terminator was asked for, which the format has not.
---
 libparted/labels/gpt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..369aa5b 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1710,10 +1710,17 @@ gpt_partition_set_name (PedPartition *part, const char *name)
     goto err;
   char *inbuff = gpt_part_data->translated_name;
   char *outbuff = (char *)&gpt_part_data->name;
-  size_t inbuffsize = strlen (inbuff) + 1;
+  size_t inbuffsize = strlen (inbuff);
   size_t outbuffsize = 72;
+  memset (outbuff, 0, outbuffsize);
   if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
-    goto err;
+    {
+      if (errno != E2BIG)
+        goto err;
+      /* only the first 36 characters are recorded */
+      free (gpt_part_data->translated_name);
+      gpt_part_data->translated_name = NULL;
+    }
   iconv_close (conv);
   return;
  err:
-- 
2.43.0


From 71e7413627f1bbfdeeb2dc8307598e53de98e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 28/93] fix: set and clear the msdos lba flag of hidden FAT
 partitions

The flag was offered for the hidden type ids, but neither setting nor
clearing it did anything.
---
 libparted/labels/dos.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index b68e311..f6d496a 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -288,10 +288,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16_LBA;
 		break;
 
+	    case PARTITION_FAT16_H:
+		*type_id = PARTITION_FAT16_LBA_H;
+		break;
+
 	    case PARTITION_FAT32:
 		*type_id = PARTITION_FAT32_LBA;
 		break;
 
+	    case PARTITION_FAT32_H:
+		*type_id = PARTITION_FAT32_LBA_H;
+		break;
+
 	    case PARTITION_DOS_EXT:
 		*type_id = PARTITION_EXT_LBA;
 		break;
@@ -305,10 +313,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16;
 		break;
 
+	    case PARTITION_FAT16_LBA_H:
+		*type_id = PARTITION_FAT16_H;
+		break;
+
 	    case PARTITION_FAT32_LBA:
 		*type_id = PARTITION_FAT32;
 		break;
 
+	    case PARTITION_FAT32_LBA_H:
+		*type_id = PARTITION_FAT32_H;
+		break;
+
 	    case PARTITION_EXT_LBA:
 		*type_id = PARTITION_DOS_EXT;
 		break;
-- 
2.43.0


From 22593070695bb9f3259f69aca3e873a1d19936e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 29/93] fix: cut an amiga partition name that is too long
 instead of ignoring it

ped_partition_set_name() reported success but left the old name.
---
 libparted/labels/rdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 9381442..5448466 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -47,7 +47,7 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	int size = strlen (cstr);
 	int i;
 
-	if (size >= maxsize) return;
+	if (size >= maxsize) size = maxsize - 1;
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-- 
2.43.0


From 879329ccbf345dbd116443769c4091343d8ae73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 30/93] fix: refuse to write a mac partition map that is too
 small instead of overrunning it

---
 libparted/labels/mac.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index a722b48..00e059d 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1061,6 +1061,11 @@ mac_write (PedDisk* disk)
 			goto error;
 	}
 
+	/* every partition and every free space needs an entry of the map */
+	if (mac_disk_data->last_part_entry_num * mac_disk_data->ghost_size
+	    > mac_disk_data->part_map_entry_count)
+		goto error_too_small;
+
 	mac_driverdata = ped_malloc(sizeof(MacDiskData));
 	if (!mac_driverdata)
 		goto error;
@@ -1088,6 +1093,11 @@ mac_write (PedDisk* disk)
 		if (part->type != PED_PARTITION_FREESPACE)
 			continue;
 		num = _get_first_empty_part_entry (disk, part_map);
+		if (!num) {
+			free (part_map);
+			free (mac_driverdata);
+			goto error_too_small;
+		}
 		if (!_generate_raw_freespace_part (disk, &part->geom, num,
 						   part_map))
 			goto error_free_part_map;
@@ -1113,6 +1123,13 @@ error_free_driverdata:
 	free (mac_driverdata);
 error:
 	return 0;
+
+error_too_small:
+	ped_exception_throw (
+		PED_EXCEPTION_ERROR,
+		PED_EXCEPTION_CANCEL,
+		_("Can't write the partition map -- it is too small!"));
+	return 0;
 }
 #endif /* !DISCOVER_ONLY */
 
-- 
2.43.0


From 542e55c9270889c86d4a6600b79fd3d57f2ae90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 31/93] fix: read the last of the 128 partitions an amiga label
 can have

---
 libparted/labels/rdb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 5448466..4dd356c 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -471,7 +471,7 @@ amiga_read (PedDisk* disk)
 	struct RigidDiskBlock *rdb;
 	struct PartitionBlock *partition;
 	uint32_t partblock;
-	uint32_t partlist[AMIGA_MAX_PARTITIONS];
+	uint32_t partlist[AMIGA_MAX_PARTITIONS + 1];
 	PedSector cylblocks;
 	int i;
 
@@ -503,10 +503,10 @@ amiga_read (PedDisk* disk)
 		return 0;
 
 	/* We initialize the hardblock free list to detect loops */
-	for (i = 0; i < AMIGA_MAX_PARTITIONS; i++) partlist[i] = LINK_END;
+	for (i = 0; i <= AMIGA_MAX_PARTITIONS; i++) partlist[i] = LINK_END;
 
 	for (i = 1, partblock = PED_BE32_TO_CPU(rdb->rdb_PartitionList);
-		i < AMIGA_MAX_PARTITIONS && partblock != LINK_END;
+		i <= AMIGA_MAX_PARTITIONS && partblock != LINK_END;
 		i++, partblock = PED_BE32_TO_CPU(partition->pb_Next))
 	{
 		PedPartition *part;
-- 
2.43.0


From 2fc0660ce427811be2485b506301d3b4a916c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 32/93] fix: keep the place of the backup table when a gpt
 label is duplicated

---
 libparted/labels/gpt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 369aa5b..3f09c81 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -627,6 +627,7 @@ gpt_duplicate (const PedDisk *disk)
                      old_disk_data->data_area.start,
                      old_disk_data->data_area.length);
   new_disk_data->entry_count = old_disk_data->entry_count;
+  new_disk_data->AlternateLBA = old_disk_data->AlternateLBA;
   new_disk_data->uuid = old_disk_data->uuid;
   new_disk_data->pmbr_boot = old_disk_data->pmbr_boot;
   return new_disk;
-- 
2.43.0


From d5b4f600bce94fb6e73e38d04048dffa1f7578f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 33/93] fix: recognise a gpt whose primary header has lost its
 signature by its backup

---
 libparted/labels/gpt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 3f09c81..bee1d0c 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -551,10 +551,14 @@ gpt_probe (const PedDevice *dev)
     }
   free (label);
 
+  /* Either of the two headers will do.  */
+  PedSector const header_lba[] = { 1, dev->length - 1 };
   void *pth_raw = ped_malloc (pth_get_size (dev));
-  if (ped_device_read (dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (dev, pth_raw, dev->length - 1, GPT_HEADER_SECTORS))
+  int i;
+  for (i = 0; i < 2 && !gpt_sig_found; i++)
     {
+      if (!ped_device_read (dev, pth_raw, header_lba[i], GPT_HEADER_SECTORS))
+        continue;
       GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
       if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
         gpt_sig_found = 1;
-- 
2.43.0


From 9f070a6e17ed059485018275869a5f7d4b45a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 34/93] fix: do not abort on a gpt header with an impossible
 number of entries

---
 libparted/labels/gpt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index bee1d0c..ad97b48 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -654,7 +654,8 @@ gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
                    size_t *ptes_bytes)
 {
   uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
-  *ptes_bytes = p_ent_size * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
+  *ptes_bytes = (size_t) p_ent_size
+                * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
   size_t ptes_sectors = ped_div_round_up (*ptes_bytes,
                                           disk->dev->sector_size);
 
@@ -722,6 +723,11 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
             && pe_size <= (UINT32_MAX >> 4)))
     return 0;
 
+  /* libparted handles up to 8192 entries.  */
+  uint32_t pe_count = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  if (pe_count == 0 || 8192 < pe_count)
+    return 0;
+
   if (PED_LE64_TO_CPU (gpt->MyLBA) != my_lba)
     return 0;
 
@@ -761,7 +767,7 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
 static PedSector
 _ptes_sectors(PedDisk const *disk, GuidPartitionTableHeader_t const *gpt)
 {
-  size_t ptes_bytes = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
+  size_t ptes_bytes = (size_t) PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
                       PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
   /* Minimum amount of space reserved is 128 128 byte entries */
   if (ptes_bytes < 128*128)
-- 
2.43.0


From 17d74cf0579fa8261f0642772aebf9075aed3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 35/93] fix: read back a gpt with a single usable sector

---
 libparted/labels/gpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index ad97b48..28829c3 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -820,11 +820,11 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
 
   last_usable_if_grown = disk->dev->length - 2 - _ptes_sectors(disk, gpt);
 
-  if (last_usable <= first_usable
+  if (last_usable < first_usable
       || disk->dev->length < last_usable)
     return 0;
 
-  if (last_usable_if_grown <= first_usable
+  if (last_usable_if_grown < first_usable
       || disk->dev->length < last_usable_if_grown)
     return 0;
 
-- 
2.43.0


From 0a5350872e34193af769f04801e8b15e9486e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 36/93] fix: check the checksum of a gpt header before using
 what it says

---
 libparted/labels/gpt.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 28829c3..e73e787 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -713,6 +713,15 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
       || PED_LE32_TO_CPU (gpt->HeaderSize) > dev->sector_size)
     return 0;
 
+  origcrc = gpt->HeaderCRC32;
+  gpt->HeaderCRC32 = 0;
+  if (pth_crc32 (dev, gpt, &crc) != 0)
+    return 0;
+  gpt->HeaderCRC32 = origcrc;
+
+  if (crc != PED_LE32_TO_CPU (origcrc))
+    return 0;
+
   /* The SizeOfPartitionEntry must be a multiple of 8 and
      no smaller than the size of the PartitionEntry structure.
      We also require that it be no larger than 1/16th of UINT32_MAX,
@@ -752,13 +761,7 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
   if (last_usable < first_usable)
     return 0;
 
-  origcrc = gpt->HeaderCRC32;
-  gpt->HeaderCRC32 = 0;
-  if (pth_crc32 (dev, gpt, &crc) != 0)
-    return 0;
-  gpt->HeaderCRC32 = origcrc;
-
-  return crc == PED_LE32_TO_CPU (origcrc);
+  return 1;
 }
 
 /* Return the number of sectors that should be used by the
-- 
2.43.0


From 6884020ae56198207dcef3d708a2f93002405c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 37/93] fix: do not follow amiga block lists out of the
 reserved area

---
 libparted/labels/rdb.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 4dd356c..d7c2fc5 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -561,7 +561,7 @@ amiga_read (PedDisk* disk)
 }
 
 static int
-_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
+_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table, size_t tab_size,
 	struct LinkedBlock *block, uint32_t first, uint32_t type)
 {
 	PedSector next;
@@ -570,10 +570,17 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	PED_ASSERT(disk->dev != NULL);
 
 	for (next = first; next != LINK_END; next = PED_BE32_TO_CPU(block->lk_Next)) {
+		if (next >= tab_size - 1) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : Block %lld is outside the reserved area."),
+				__func__, next);
+			return 0;
+		}
 		if (table[next] != IDNAME_FREE) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_FIX | PED_EXCEPTION_IGNORE | PED_EXCEPTION_CANCEL,
-				_("%s : Loop detected at block %d."), __func__, next))
+				_("%s : Loop detected at block %lld."), __func__, next))
 			{
 				case PED_EXCEPTION_CANCEL :
 					return 0;
@@ -592,7 +599,7 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		if (PED_BE32_TO_CPU(block->lk_ID) != type) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-				_("%s : The %s list seems bad at block %s."),
+				_("%s : The %s list seems bad at block %lld."),
 				__func__, _amiga_block_id(PED_BE32_TO_CPU(block->lk_ID)), next))
 			{
 				/* TODO : to more subtile things here */
@@ -604,7 +611,7 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		}
 		table[next] = type;
 		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
-			if (_amiga_find_free_blocks(disk, table, block,
+			if (_amiga_find_free_blocks(disk, table, tab_size, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
 		}
@@ -686,7 +693,7 @@ amiga_write (const PedDisk* disk)
 	}
 
 	/* And fill the free block table */
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -694,7 +701,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list bad blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_PartitionList), IDNAME_PARTITION) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -702,7 +709,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list partition blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_FileSysHeaderList), IDNAME_FILESYSHEADER) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -710,7 +717,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list file system blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BootBlockList), IDNAME_BOOT) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -728,6 +735,12 @@ amiga_write (const PedDisk* disk)
 		PED_ASSERT(part->geom.start % cylblocks == 0);
 		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
 
+		if (block_num >= tab_size - 1) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("There is no room for another partition block."));
+			goto error_free_table;
+		}
 		next_part = _amiga_next_real_partition(disk, part);
 		next_num = _amiga_next_free_block(table, block_num+1, IDNAME_PARTITION);
 
-- 
2.43.0


From 3a24db15a8e384a76ed1bae23b12a37b6c42b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 38/93] fix: do not commit an amiga or bsd label after a failed
 read

---
 libparted/labels/bsd.c | 10 ++++++----
 libparted/labels/rdb.c |  8 ++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 38bc64c..2db15b8 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -303,14 +303,14 @@ error:
 	return 0;
 }
 
-static void
+static int
 _probe_and_add_boot_code (const PedDisk* disk)
 {
 	BSDDiskData *old_data;
 
 	void *s0;
 	if (!ptt_read_sector (disk->dev, 0, &s0))
-		return;
+		return 0;
 	old_data = (BSDDiskData*) s0;
 	if (old_data->boot_code [0]
 	    && old_data->label.d_magic == PED_CPU_TO_LE32 (BSD_DISKMAGIC)) {
@@ -318,6 +318,7 @@ _probe_and_add_boot_code (const PedDisk* disk)
 		memcpy (bsd_specific, old_data, sizeof (BSDDiskData));
         }
 	free (s0);
+	return 1;
 }
 
 #ifndef DISCOVER_ONLY
@@ -337,8 +338,9 @@ bsd_write (const PedDisk* disk)
 	bsd_specific = (BSDDiskData*) disk->disk_specific;
 	label = &bsd_specific->label;
 
-	if (!bsd_specific->boot_code[0])
-		_probe_and_add_boot_code (disk);
+	if (!bsd_specific->boot_code[0]
+	    && !_probe_and_add_boot_code (disk))
+		goto error;
 
 	memset (label->d_partitions, 0,
 		sizeof (BSDRawPartition) * BSD_MAXPARTITIONS);
diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index d7c2fc5..557da49 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -654,6 +654,14 @@ amiga_write (const PedDisk* disk)
 	if (!(rdb = ped_malloc (disk->dev->sector_size)))
 		return 0;
 
+	/* An rdb that cannot be read is not a missing one. */
+	for (i = 0; i < RDB_LOCATION_LIMIT; i++) {
+		if (!ped_device_read (disk->dev, rdb, i, 1)) {
+			free (rdb);
+			return 0;
+		}
+	}
+
 	/* Let's read the rdb */
 	if ((rdb_num = _amiga_find_rdb (disk->dev, rdb)) == AMIGA_RDB_NOT_FOUND) {
 		rdb_num = 2;
-- 
2.43.0


From 106f036fd47ce72d45861a3a32d23febb9cb6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 39/93] fix: let an amiga label be committed after a commit
 that failed

---
 libparted/labels/rdb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 557da49..370d6c4 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -670,6 +670,9 @@ amiga_write (const PedDisk* disk)
                    with a partition block in amiga_read.  */
 		memset ((char *)(RDSK(disk->disk_specific)) + pb_size,
 			0, PED_SECTOR_SIZE_DEFAULT - pb_size);
+		/* No partition block is there either.  */
+		RDSK(disk->disk_specific)->rdb_PartitionList
+			= PED_CPU_TO_BE32 (LINK_END);
 	} else {
 		memcpy (RDSK(disk->disk_specific), rdb, disk->dev->sector_size);
 	}
-- 
2.43.0


From d5a8b5d42756a4737122dbb3994b8ef518b81581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 40/93] fix: fail an atari commit whose bad sector list could
 not be written

---
 libparted/labels/atari.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8ab3720..1d19271 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1009,7 +1009,8 @@ atr_empty_init_bsl (const PedDisk* disk)
 				sec );
 			return 0;
 		}
-		ped_device_write (disk->dev, zeros, sec, 1);
+		if (!ped_device_write (disk->dev, zeros, sec, 1))
+			return 0;
 	}
 	atr_disk->HDX_comp = 0;
 	return 1;
-- 
2.43.0


From c5cc54b4867c1bfe45a1c437f48b6491e0542239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 41/93] fix: tell an amiga rdb that cannot be read from a
 missing one

---
 libparted/labels/rdb.c | 46 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 370d6c4..f641ecd 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -157,11 +157,9 @@ _amiga_calculate_checksum (struct AmigaBlock *blk) {
 }
 
 static struct AmigaBlock *
-_amiga_read_block (const PedDevice *dev, struct AmigaBlock *blk,
-                   PedSector block, struct AmigaIds *ids)
+_amiga_check_block (const PedDevice *dev, struct AmigaBlock *blk,
+                    PedSector block, struct AmigaIds *ids)
 {
-	if (!ped_device_read (dev, blk, block, 1))
-		return NULL;
 	if (ids && !_amiga_id_in_list(PED_BE32_TO_CPU(blk->amiga_ID), ids))
 		return NULL;
 	if (_amiga_checksum (blk) != 0) {
@@ -185,6 +183,14 @@ _amiga_read_block (const PedDevice *dev, struct AmigaBlock *blk,
 	}
 	return blk;
 }
+static struct AmigaBlock *
+_amiga_read_block (const PedDevice *dev, struct AmigaBlock *blk,
+                   PedSector block, struct AmigaIds *ids)
+{
+	if (!ped_device_read (dev, blk, block, 1))
+		return NULL;
+	return _amiga_check_block (dev, blk, block, ids);
+}
 
 struct RigidDiskBlock {
     uint32_t	rdb_ID;			/* Identifier 32 bit word : 'RDSK' */
@@ -239,14 +245,19 @@ struct RigidDiskBlock {
 #define MAX_RDB_BLOCK (RDB_LOCATION_LIMIT + 2 * AMIGA_MAX_PARTITIONS + 2)
 
 static uint32_t
-_amiga_find_rdb (const PedDevice *dev, struct RigidDiskBlock *rdb) {
+_amiga_find_rdb (const PedDevice *dev, struct RigidDiskBlock *rdb,
+                 bool *unreadable) {
 	int i;
 	struct AmigaIds *ids;
 
 	ids = _amiga_add_id (IDNAME_RIGIDDISK, NULL);
 
 	for (i = 0; i<RDB_LOCATION_LIMIT; i++) {
-		if (!_amiga_read_block (dev, AMIGA(rdb), i, ids)) {
+		if (!ped_device_read (dev, rdb, i, 1)) {
+			*unreadable = true;
+			continue;
+		}
+		if (!_amiga_check_block (dev, AMIGA(rdb), i, ids)) {
 			continue;
 		}
 		if (PED_BE32_TO_CPU (rdb->rdb_ID) == IDNAME_RIGIDDISK) {
@@ -338,7 +349,8 @@ amiga_probe (const PedDevice *dev)
 
 	if ((rdb=RDSK(ped_malloc(dev->sector_size)))==NULL)
 		return 0;
-	found = _amiga_find_rdb (dev, rdb);
+	bool unreadable = false;
+	found = _amiga_find_rdb (dev, rdb, &unreadable);
 	free (rdb);
 
 	return (found == AMIGA_RDB_NOT_FOUND ? 0 : 1);
@@ -481,7 +493,9 @@ amiga_read (PedDisk* disk)
 	PED_ASSERT(disk->disk_specific != NULL);
 	rdb = RDSK(disk->disk_specific);
 
-	if (_amiga_find_rdb (disk->dev, rdb) == AMIGA_RDB_NOT_FOUND) {
+	bool unreadable = false;
+	if (_amiga_find_rdb (disk->dev, rdb, &unreadable)
+	    == AMIGA_RDB_NOT_FOUND) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Didn't find rdb block, should never happen."), __func__);
 		return 0;
@@ -654,16 +668,14 @@ amiga_write (const PedDisk* disk)
 	if (!(rdb = ped_malloc (disk->dev->sector_size)))
 		return 0;
 
-	/* An rdb that cannot be read is not a missing one. */
-	for (i = 0; i < RDB_LOCATION_LIMIT; i++) {
-		if (!ped_device_read (disk->dev, rdb, i, 1)) {
-			free (rdb);
-			return 0;
-		}
+	/* Let's read the rdb; one that cannot be read is not a missing one */
+	bool unreadable = false;
+	rdb_num = _amiga_find_rdb (disk->dev, rdb, &unreadable);
+	if (unreadable) {
+		free (rdb);
+		return 0;
 	}
-
-	/* Let's read the rdb */
-	if ((rdb_num = _amiga_find_rdb (disk->dev, rdb)) == AMIGA_RDB_NOT_FOUND) {
+	if (rdb_num == AMIGA_RDB_NOT_FOUND) {
 		rdb_num = 2;
 		size_t pb_size = sizeof (struct PartitionBlock);
                 /* Initialize only the part that won't be copied over
-- 
2.43.0


From 9638118dc2255a1029fbf9fd3c2c51a9553a7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 42/93] fix: stop checking a device at its end, and count whole
 sectors when reads are short

---
 libparted/arch/linux.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..7b23dbd 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2125,8 +2125,8 @@ static PedSector
 linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
 {
         LinuxSpecific*  arch_specific = LINUX_SPECIFIC (dev);
-        PedSector       done = 0;
-        int             status;
+        size_t          length = count * dev->sector_size;
+        size_t          done = 0;
         void*           diobuf;
 
         PED_ASSERT(dev != NULL);
@@ -2134,21 +2134,20 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        if (posix_memalign(&diobuf, dev->sector_size, length) != 0)
                 return 0;
 
-        for (done = 0; done < count; done += status / dev->sector_size) {
-                status = read (arch_specific->fd, diobuf,
-                               (size_t) ((count-done) * dev->sector_size));
-                if (status > 0)
-                        memcpy(buffer, diobuf, status);
-                if (status < 0)
+        while (done < length) {
+                ssize_t status = read (arch_specific->fd, diobuf,
+                                       length - done);
+                if (status <= 0)        /* an error, or the end */
                         break;
+                memcpy((char *) buffer + done, diobuf, status);
+                done += status;
         }
         free(diobuf);
 
-        return done;
+        return done / dev->sector_size;
 }
 
 static int
-- 
2.43.0


From e9b6e5f2fcce8e9551135c70c28fa7bb195dd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 43/93] fix: find bad sectors at the end of the region checked
 instead of checking it forever

---
 libparted/cs/geom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index e2d0246..ae86bdf 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -432,8 +432,10 @@ retry:
 
 found_error:
 	ped_exception_catch();
-	for (i = group; i + granularity < group + count; i += granularity) {
-		if (!ped_geometry_read (geom, buffer, i, granularity)) {
+	for (i = group; i < group + read_len; i += granularity) {
+		if (!ped_geometry_read (geom, buffer, i,
+					PED_MIN (granularity,
+						 group + read_len - i))) {
 			ped_exception_catch();
 			ped_exception_leave_all();
 			return i;
-- 
2.43.0


From ef6c1aca0d3d73add06d3d61c669412700d489ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 44/93] fix: close a device whose fsync failed, and close it
 only once

---
 libparted/arch/linux.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 7b23dbd..3e66297 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1768,7 +1768,7 @@ linux_close (PedDevice* dev)
         if (dev->dirty)
                 _flush_cache (dev);
 retry:
-        if (fsync (arch_specific->fd) < 0 || close (arch_specific->fd) < 0)
+        if (fsync (arch_specific->fd) < 0)
 		if (ped_exception_throw (
 			PED_EXCEPTION_WARNING,
 			PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
@@ -1776,6 +1776,13 @@ retry:
 			dev->path, strerror (errno))
 				== PED_EXCEPTION_RETRY)
 			goto retry;
+        /* the descriptor is gone even if close fails: it cannot be retried */
+        if (close (arch_specific->fd) < 0)
+		ped_exception_throw (
+			PED_EXCEPTION_WARNING,
+			PED_EXCEPTION_IGNORE,
+			_("Error fsyncing/closing %s: %s"),
+			dev->path, strerror (errno));
         return 1;
 }
 
-- 
2.43.0


From dc76acf68872e0404e08ace4896695ad35688982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 45/93] fix: round a negative number to the nearest multiple

---
 libparted/cs/natmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 3bcf029..7a789c1 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -89,7 +89,7 @@ ped_round_up_to (PedSector sector, PedSector grain_size)
 PedSector
 ped_round_to_nearest (PedSector sector, PedSector grain_size)
 {
-	if (sector % grain_size > grain_size/2)
+	if (abs_mod (sector, grain_size) > grain_size/2)
 		return ped_round_up_to (sector, grain_size);
 	else
 		return ped_round_down_to (sector, grain_size);
-- 
2.43.0


From 6a681609bd667ecf83459174107a81dc43071a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 46/93] fix: meet alignments whose grains are large

---
 libparted/cs/natmath.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 7a789c1..903924c 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -196,7 +196,7 @@ ped_alignment_duplicate (const PedAlignment* align)
  * 	gcd = x*a + y*b
  */
 static EuclidTriple _GL_ATTRIBUTE_PURE
-extended_euclid (int a, int b)
+extended_euclid (PedSector a, PedSector b)
 {
 	EuclidTriple	result;
 	EuclidTriple	tmp;
@@ -295,7 +295,9 @@ ped_alignment_intersect (const PedAlignment* a, const PedAlignment* b)
 {
 	PedSector	new_grain_size;
 	PedSector	new_offset;
-	PedSector	delta_on_gcd;
+	PedSector	delta;
+	PedSector	factor;
+	PedSector	b_on_gcd;
 	EuclidTriple	gcd_factors;
 
 
@@ -324,15 +326,24 @@ ped_alignment_intersect (const PedAlignment* a, const PedAlignment* b)
 	/* general case */
 	gcd_factors = extended_euclid (a->grain_size, b->grain_size);
 
-	delta_on_gcd = (b->offset - a->offset) / gcd_factors.gcd;
-	new_offset = a->offset + gcd_factors.x * delta_on_gcd * a->grain_size;
-	new_grain_size = a->grain_size * b->grain_size / gcd_factors.gcd;
+	delta = b->offset - a->offset;
 
 	/* inconsistency => no solution */
-	if (new_offset
-	    != b->offset - gcd_factors.y * delta_on_gcd * b->grain_size)
+	if (delta % gcd_factors.gcd)
 		return NULL;
 
+	/* X is only needed modulo b->grain_size / gcd, and would be too big
+	 * to be multiplied by a->grain_size otherwise
+	 */
+	factor = delta / gcd_factors.gcd;
+	b_on_gcd = b->grain_size / gcd_factors.gcd;
+	if (b_on_gcd)
+		factor = abs_mod (abs_mod (gcd_factors.x, b_on_gcd)
+				  * abs_mod (factor, b_on_gcd), b_on_gcd);
+
+	new_offset = a->offset + factor * a->grain_size;
+	new_grain_size = a->grain_size * b_on_gcd;
+
 	return ped_alignment_new (new_offset, new_grain_size);
 }
 
-- 
2.43.0


From cbec2992417a60add46ca38a5c27ce779e49753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 47/93] fix: ped_geometry_map() took the sector for an absolute
 one

---
 libparted/cs/geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index ae86bdf..998de25 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -474,7 +474,7 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 	PED_ASSERT (dst != NULL);
 	PED_ASSERT (src != NULL);
 
-	if (!ped_geometry_test_sector_inside (src, sector))
+	if (sector < 0 || sector >= src->length)
 		return -1;
 	if (dst->dev != src->dev)
 		return -1;
-- 
2.43.0


From 38d9717295b59d4155cfc7f99637213f69eb0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 48/93] fix: do not wipe a device for an aix label that cannot
 be written

---
 libparted/labels/aix.c | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/libparted/labels/aix.c b/libparted/labels/aix.c
index 8adb4db..5163852 100644
--- a/libparted/labels/aix.c
+++ b/libparted/labels/aix.c
@@ -94,18 +94,6 @@ aix_read (PedDisk* disk)
         return 0;
 }
 
-#ifndef DISCOVER_ONLY
-static int
-aix_write (const PedDisk* disk)
-{
-        ped_exception_throw (PED_EXCEPTION_NO_FEATURE,
-                             PED_EXCEPTION_CANCEL,
-                             _("Support for writing AIX disk labels is "
-                               "is not implemented yet."));
-	return 0;
-}
-#endif /* !DISCOVER_ONLY */
-
 static PedPartition*
 aix_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		   const PedFileSystemType* fs_type,
@@ -209,7 +197,7 @@ PT_define_limit_functions (aix)
 
 static PedDiskOps aix_disk_ops = {
 	clobber:		NULL,
-	write:			NULL_IF_DISCOVER_ONLY (aix_write),
+	write:			NULL, /* not implemented */
 
 	partition_set_name:		NULL,
 	partition_get_name:		NULL,
-- 
2.43.0


From 94efa51ed7d82dd98da0c306f73dccd018dda4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 49/93] fix: clobber an amiga rdb on a device with large
 sectors

---
 libparted/disk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 1b43b59..22313fe 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -332,8 +332,10 @@ ped_disk_clobber (PedDevice* dev)
 	   starting at offset 8KiB on a DASD partition table.
 	   Doing the same from the end of the disk is probably
 	   overkill, but at least on GPT, we do need to zero out
-	   the final sector.  */
-	const PedSector n_sectors = 9 * 1024 / dev->sector_size + 1;
+	   the final sector.  An amiga RDB can lie in any of the first
+	   16 sectors, whatever their size.  */
+	const PedSector n_sectors = PED_MAX (9 * 1024 / dev->sector_size + 1,
+					     16);
 
 	/* Clear the first few.  */
 	PedSector n = n_sectors;
-- 
2.43.0


From c897b4a530eaefa8b367aa877baa6c4ab2a9231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 50/93] fix: clobber a protective MBR that is taken for another
 table

---
 libparted/disk.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 22313fe..48bead4 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -354,6 +354,12 @@ ped_disk_clobber (PedDevice* dev)
         if (!ptt_clear_sectors (dev, t, dev->length - t))
           goto error_close_dev;
 
+        /* A protective MBR may also hold what is now taken for a table of
+           another type.  */
+        if (first_sector && ped_disk_probe (dev)
+            && !ptt_clear_sectors (dev, 0, first_sector))
+          goto error_close_dev;
+
 	ped_device_close (dev);
 	return 1;
 
-- 
2.43.0


From 2a0ae7a8303f6724ece4d4952c969b6127443389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 51/93] fix: believe the ioctls that tell where a partition
 lies when they succeed

Without sysfs, HDIO_GETGEO and BLKGETSIZE64 were taken to have failed when
they succeeded, so that every partition was removed and added again.
---
 libparted/arch/linux.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 3e66297..1caceb4 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2783,7 +2783,8 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         if (!ok) {
                 struct hd_geometry geom;
                 int dev_fd = open (dev_name, O_RDONLY);
-                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom)) {
+                if (dev_fd != -1
+                    && ioctl (dev_fd, HDIO_GETGEO, &geom) == 0) {
                         *start = geom.start;
                         close (dev_fd);
                         ok = true;
@@ -2800,7 +2801,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         int fd;
         if (!ok) {
                 fd = open (dev_name, O_RDONLY);
-                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length))
+                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length) == 0)
                         ok = true;
         } else {
                 fd = -1;
-- 
2.43.0


From ef9e9376e1c1bc60e32f5aeaa4ca35633bad5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 52/93] fix: the device itself counts in ext_range

The kernel has one partition fewer than ext_range says, and refused the one
added beyond.  The last partition that it has can be resized in place.
---
 libparted/arch/linux.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 1caceb4..f190e7b 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1670,7 +1670,7 @@ _flush_cache (PedDevice* dev)
 
         ioctl (arch_specific->fd, BLKFLSBUF);
 
-        for (i = 1; i < lpn; i++) {
+        for (i = 1; i <= lpn; i++) {
                 char*           name;
                 int             fd;
 
@@ -2837,8 +2837,8 @@ _device_get_partition_range(PedDevice const* dev)
 
         if (!ok)
                 return MAX_NUM_PARTS;
-        /* both 0 and 1 mean no partitions */
-        return range > 1 ? range : 0;
+        /* the device itself counts as one: both 0 and 1 mean no partitions */
+        return range > 1 ? range - 1 : 0;
 }
 
 #ifdef ENABLE_DEVICE_MAPPER
@@ -3149,7 +3149,7 @@ _disk_sync_part_table (PedDisk* disk)
                                                            &start, &length)
                             && start == part->geom.start
                             && (length == part->geom.length
-                                || (resize_partition && part->num < lpn2)))
+                                || (resize_partition && part->num <= lpn2)))
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
                                 ok[i - 1] = 1;
-- 
2.43.0


From 31de4bb4552a036b1b3b9b000d93e12b74096877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 53/93] fix: a device is busy when a partition beyond the 31st
 is

---
 libparted/arch/linux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f190e7b..ef4008d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1634,7 +1634,9 @@ linux_is_busy (PedDevice* dev)
         if (_partition_is_mounted_by_path (dev->path))
                 return 1;
 
-        for (i = 0; i < 32; i++) {
+        int     lpn = _device_get_partition_range (dev);
+
+        for (i = 1; i <= lpn; i++) {
                 int status;
 
                 part_name = _device_get_part_path (dev, i);
-- 
2.43.0


From 186b639774b3db734b2bf030fa90f77bbb7ee0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 54/93] fix: resize the kernel's partitions before adding
 others

A partition added in the space that one with a higher number gives up was
refused by the kernel, and reported as in use.
---
 libparted/arch/linux.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ef4008d..4f4688f 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3135,9 +3135,13 @@ _disk_sync_part_table (PedDisk* disk)
         int *ok = calloc (lpn, sizeof *ok);
         if (!ok)
                 return 0;
+        int *known = NULL;
         int *errnums = ped_malloc(sizeof(int) * lpn);
         if (!errnums)
                 goto cleanup;
+        known = calloc (lpn, sizeof *known);
+        if (!known)
+                goto cleanup;
 
         int i;
         /* remove old partitions first */
@@ -3178,6 +3182,8 @@ _disk_sync_part_table (PedDisk* disk)
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
                 lpn = 0;
+        /* resize before anything is added: what a partition gives up may be
+           where another one is added */
         for (i = 1; i <= lpn; i++) {
                 PedPartition *part = ped_disk_get_partition (disk, i);
                 if (!part)
@@ -3192,6 +3198,7 @@ _disk_sync_part_table (PedDisk* disk)
                         if (length == part->geom.length) {
                                 ok[i - 1] = 1;
                                 /* partition is unchanged, so nothing to do */
+                                known[i - 1] = 1;
                                 continue;
                         }
                         if (resize_partition
@@ -3200,10 +3207,15 @@ _disk_sync_part_table (PedDisk* disk)
                                 /* try to resize */
                                 if (resize_partition (disk, part)) {
                                         ok[i - 1] = 1;
-                                        continue;
+                                        known[i - 1] = 1;
                                 }
                         }
                 }
+        }
+        for (i = 1; i <= lpn; i++) {
+                PedPartition *part = ped_disk_get_partition (disk, i);
+                if (!part || known[i - 1])
+                        continue;
                 /* add the (possibly modified or new) partition */
                 if (!add_partition (disk, part)) {
                         ok[i - 1] = 0;
@@ -3241,6 +3253,7 @@ _disk_sync_part_table (PedDisk* disk)
                 free (bad_part_list);
         }
  cleanup:
+        free (known);
         free (errnums);
         free (ok);
         return ret;
-- 
2.43.0


From ac5a2b91e06be234112de3cd859d8b37f7e85415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 55/93] fix: report the partitions in use that the new table
 cannot have

Those beyond the label's last number, and all of them below a loop label,
stayed in the kernel without a word.
---
 libparted/arch/linux.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 4f4688f..b5f9a9d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3178,6 +3178,7 @@ _disk_sync_part_table (PedDisk* disk)
                 if (!ok[i - 1] && errnums[i - 1] == ENXIO)
                         ok[i - 1] = 1; /* it already doesn't exist */
         }
+        int lpn_removed = lpn;
         lpn = lpn2;
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
@@ -3225,11 +3226,14 @@ _disk_sync_part_table (PedDisk* disk)
 
         char *bad_part_list = NULL;
         /* now warn about any errors */
-        for (i = 1; i <= lpn; i++) {
+        for (i = 1; i <= lpn_removed; i++) {
                 if (ok[i - 1] || errnums[i - 1] == ENXIO)
                         continue;
+                /* a partition that the table cannot have, still in use */
+                if (i > lpn && errnums[i - 1] != EBUSY)
+                        continue;
                 if (bad_part_list == NULL) {
-                        bad_part_list = malloc (lpn * 5);
+                        bad_part_list = malloc (lpn_removed * 5);
                         if (!bad_part_list)
                                 goto cleanup;
                         bad_part_list[0] = 0;
-- 
2.43.0


From 984e11f3dacada08aba7909dfebaa40b50cf5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 56/93] fix: a gpt label supports as many partitions as its
 array has entries

The number was computed from whatever header lay on the device, which had to
be open, although the entries beyond those of the array are never used; and
without a header, the sector behind the last one was read.
---
 libparted/labels/gpt.c | 48 +-----------------------------------------
 1 file changed, 1 insertion(+), 47 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index e73e787..eec434a 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1836,56 +1836,10 @@ gpt_get_max_primary_partition_count (const PedDisk *disk)
   return gpt_disk_data->entry_count;
 }
 
-/*
- * From (http://developer.apple.com/technotes/tn2006/tn2166.html Chapter 5).
- * According to the specs the first LBA (LBA0) is not relevant (it exists
- * to maintain compatibility).  on the second LBA(LBA1) gpt places the
- * header.  The header is as big as the block size.  After the header we
- * find the Entry array.  Each element of said array, describes each
- * partition.  One can have as much elements as can fit between the end of
- * the second LBA (where the header ends) and the FirstUsableLBA.
- * FirstUsableLBA is the first logical block that is used for contents
- * and is defined in header.
- *
- * /---------------------------------------------------\
- * | BLOCK0 | HEADER | Entry Array | First Usable LBA  |
- * |        | BLOCK1 |             |                   |
- * \---------------------------------------------------/
- *                  /              \
- *     /----------/                  \----------\
- *     /-----------------------------------------\
- *     |  E1  |  E2  |  E3  |...............| EN |
- *     \-----------------------------------------/
- *
- * The number of possible partitions or supported partitions is:
- * SP = FirstUsableLBA*Blocksize - 2*Blocksize / SizeOfPartitionEntry
- * SP = Blocksize(FirstusableLBA - 2) / SizeOfPartitoinEntry
- */
 static bool
 gpt_get_max_supported_partition_count (const PedDisk *disk, int *max_n)
 {
-  GuidPartitionTableHeader_t *pth = NULL;
-  uint8_t *pth_raw = ped_malloc (pth_get_size (disk->dev));
-
-  if (ped_device_read (disk->dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (disk->dev, pth_raw,
-                          disk->dev->length, GPT_HEADER_SECTORS))
-    pth = pth_new_from_raw (disk->dev, pth_raw);
-  free (pth_raw);
-
-  if (pth == NULL)
-    return false;
-
-  if (!_header_is_valid (disk, pth, 1))
-    {
-      pth->FirstUsableLBA = PED_CPU_TO_LE64 (34);
-      pth->SizeOfPartitionEntry
-        = PED_CPU_TO_LE32 (sizeof (GuidPartitionEntry_t));
-    }
-
-  *max_n = (disk->dev->sector_size * (PED_LE64_TO_CPU (pth->FirstUsableLBA) - 2)
-            / PED_LE32_TO_CPU (pth->SizeOfPartitionEntry));
-  pth_free (pth);
+  *max_n = gpt_get_max_primary_partition_count (disk);
   return true;
 }
 
-- 
2.43.0


From 51093fb1e8697d0e7b4ba1af27a9b53bfe527b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:32 +0000
Subject: [PATCH 57/93] fix: remove the kernel's partition 1 for a loop label
 even when it starts at 0

It was taken for the label's own partition, which is never made known.
---
 libparted/arch/linux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index b5f9a9d..e67827d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3126,6 +3126,9 @@ _disk_sync_part_table (PedDisk* disk)
                 lpn2 = PED_MIN(lpn2, part_range);
         else
                 lpn2 = part_range;
+        /* don't actually add partitions for loop */
+        if (strcmp (disk->type->name, "loop") == 0)
+                lpn2 = 0;
         /* Its not possible to support largest_partnum < 0.
          * largest_partnum == 0 would mean does not support partitions.
          * */
@@ -3147,7 +3150,7 @@ _disk_sync_part_table (PedDisk* disk)
         /* remove old partitions first */
         for (i = 1; i <= lpn; i++) {
                 PedPartition *part = ped_disk_get_partition (disk, i);
-                if (part) {
+                if (part && part->num <= lpn2) {
                         unsigned long long length;
                         unsigned long long start;
                         /* get start and length of existing partition */
@@ -3155,7 +3158,7 @@ _disk_sync_part_table (PedDisk* disk)
                                                            &start, &length)
                             && start == part->geom.start
                             && (length == part->geom.length
-                                || (resize_partition && part->num <= lpn2)))
+                                || resize_partition))
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
                                 ok[i - 1] = 1;
@@ -3180,9 +3183,6 @@ _disk_sync_part_table (PedDisk* disk)
         }
         int lpn_removed = lpn;
         lpn = lpn2;
-        /* don't actually add partitions for loop */
-        if (strcmp (disk->type->name, "loop") == 0)
-                lpn = 0;
         /* resize before anything is added: what a partition gives up may be
            where another one is added */
         for (i = 1; i <= lpn; i++) {
-- 
2.43.0


From c86f01d1506c4eba5e3f10a24d89be78e2f50988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:43 +0000
Subject: [PATCH 58/93] fix: do not make an extended partition of one sector
 longer than it is

The kernel refuses it when another partition follows.
---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index e67827d..6d673e6 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2608,7 +2608,7 @@ _blkpg_add_partition (PedDisk* disk, const PedPartition *part)
         /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
         if (part->type & PED_PARTITION_EXTENDED) {
                 linux_part.length = 1;
-                if (disk->dev->sector_size == 512) {
+                if (disk->dev->sector_size == 512 && part->geom.length > 1) {
                         if (linux_part.length == 1)
                                 linux_part.length = 2;
                         PedPartition *walk;
@@ -2669,7 +2669,7 @@ static int _blkpg_resize_partition (PedDisk* disk, const PedPartition *part)
         linux_part.start = part->geom.start * disk->dev->sector_size;
         /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
         if (part->type & PED_PARTITION_EXTENDED) {
-                if (disk->dev->sector_size == 512) {
+                if (disk->dev->sector_size == 512 && part->geom.length > 1) {
                         linux_part.length = 2;
                         PedPartition *walk;
                         /* if the second sector is claimed by a logical partition,
-- 
2.43.0


From 2e66f994a3a26aec50c921452e4e6c604318ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 59/93] fix: terminate a location after removing its spaces

strip_string moved the characters after a space down without the
terminator, so that " 10" was read as 100 and "1 0" as 100.
---
 libparted/unit.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index a63b98d..4223544 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -318,19 +318,17 @@ ped_unit_parse (const char* str, const PedDevice* dev, PedSector *sector,
 	return ped_unit_parse_custom (str, dev, default_unit, sector, range);
 }
 
-/* Inefficiently removes all spaces from a string, in-place. */
+/* Removes all spaces from a string, in-place. */
 static void
 strip_string (char* str)
 {
-	int i;
+	char *dest = str;
 
-	for (i = 0; str[i] != 0; i++) {
-		if (isspace (str[i])) {
-			int j;
-			for (j = i + 1; str[j] != 0; j++)
-				str[j - 1] = str[j];
-		}
+	for (; *str; str++) {
+		if (!isspace ((unsigned char) *str))
+			*dest++ = *str;
 	}
+	*dest = 0;
 }
 
 
-- 
2.43.0


From 632c8e1538a5db188986d76528c3024c35db6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 60/93] fix: do not take "-5%", "5.5%" and "-1.5MB" for CHS
 locations

---
 libparted/unit.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 4223544..f0cf408 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -359,8 +359,14 @@ is_chs (const char* str)
 	int punct_count = 0;
 	int i = 0;
 
-	for (i = 0; str[i]; i++)
-		punct_count += ispunct (str[i]) != 0;
+	/* neither a sign nor a percent unit separates cylinders, heads
+	   and sectors */
+	while (isspace ((unsigned char) str[i]))
+		i++;
+	if (str[i] == '-')
+		return 0;
+	for (; str[i]; i++)
+		punct_count += ispunct ((unsigned char) str[i]) && str[i] != '%';
 	return punct_count == 2;
 }
 
-- 
2.43.0


From 17293a816253867762d26abfd9cbe5daf3c9ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 61/93] fix: refuse CHS locations whose cylinder does not fit
 an int

"4294967296,0,0" was taken for "0,0,0", and "2708039886,0,0" ended in
a failed assertion for its negative sector.
---
 libparted/unit.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index f0cf408..1f157ba 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -375,7 +375,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		PedGeometry** range)
 {
 	PedSector cyl_size = dev->bios_geom.heads * dev->bios_geom.sectors;
-	PedCHSGeometry chs;
+	struct { long long cylinders, heads, sectors; } chs;
 
 	char* copy = ped_strdup (str);
 	if (!copy)
@@ -383,7 +383,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 	strip_string (copy);
 	remove_punct (copy);
 
-	if (sscanf (copy, "%d %d %d",
+	if (sscanf (copy, "%lld %lld %lld",
 		    &chs.cylinders, &chs.heads, &chs.sectors) != 3) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
@@ -407,11 +407,12 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		goto error_free_copy;
 	}
 
-	*sector = 1LL * chs.cylinders * cyl_size
-		+ chs.heads * dev->bios_geom.sectors
-		+ chs.sectors;
+	*sector = chs.heads * dev->bios_geom.sectors + chs.sectors;
+	if (chs.cylinders <= dev->length / cyl_size)
+		*sector += chs.cylinders * cyl_size;
 
-	if (*sector >= dev->length) {
+	if (chs.cylinders > dev->length / cyl_size
+	    || *sector >= dev->length) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The location %s is outside of the "
-- 
2.43.0


From 9be371cbe043ad186d7bc42053373ee2fa6288f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 62/93] fix: locate positions from the end and huge ones
 correctly

The distance from the end was rounded towards the end, so that "-1B"
was outside of the device; a position too large for a PedSector was
taken for sector zero.
---
 libparted/unit.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 1f157ba..be5c7ea 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -58,6 +58,7 @@
 #include <ctype.h>
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 
 #define N_(String) String
 #if ENABLE_NLS
@@ -510,6 +511,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     copy;
 	char*     suffix;
 	double    num;
+	double    pos;
 	long long unit_size;
 	PedSector radius;
 
@@ -558,7 +560,18 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 				radius = 0;
 	}
 
-	*sector = num * unit_size / dev->sector_size;
+	pos = num * unit_size / dev->sector_size;
+	/* keep what is far outside of any device within a PedSector */
+	if (pos > LLONG_MAX / 4)
+		*sector = LLONG_MAX / 4;
+	else if (pos < -LLONG_MAX / 4)
+		*sector = -LLONG_MAX / 4;
+	else {
+		*sector = pos;
+		/* the sector that contains the position */
+		if (*sector > pos)
+			(*sector)--;
+	}
 	/* negative numbers count from the end */
 	if (copy[0] == '-')
 		*sector += dev->length;
-- 
2.43.0


From b5459cdb687bd002e0efc7e2ba7d437d9aa30eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 63/93] fix: do not write a Sun cylinder count that wraps to 0

---
 libparted/labels/sun.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 853576b..84f72a1 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -476,8 +476,11 @@ sun_write (const PedDisk* disk)
 			disk->dev->bios_geom.cylinders);
 	}
 
-	label->pcylcount = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders);
-	label->ncyl = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders
+	/* The fields are 16 bits wide.  A count that wraps to 0 would make
+	   the label unreadable.  */
+	int cylinders = PED_MIN (disk->dev->bios_geom.cylinders, 65535);
+	label->pcylcount = PED_CPU_TO_BE16 (cylinders);
+	label->ncyl = PED_CPU_TO_BE16 (cylinders
 			- PED_BE16_TO_CPU (label->nacyl));
 
 	sun_compute_checksum (label);
-- 
2.43.0


From b832ff16cd4cf02d417559be5b61b1e48434764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 64/93] fix: keep PC98 partitions within the cylinders the
 label can record

---
 libparted/labels/pc98.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index cfa3ba4..6c3542e 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -666,15 +666,18 @@ _primary_constraint (PedDisk* disk)
 	PedAlignment	end_align;
 	PedGeometry	max_geom;
 	PedSector	cylinder_size;
+	PedSector	max_length;
 
 	cylinder_size = dev->hw_geom.sectors * dev->hw_geom.heads;
+	/* cylinder numbers are recorded in 16 bits */
+	max_length = PED_MIN (dev->length, 65536 * cylinder_size);
 
 	if (!ped_alignment_init (&start_align, 0, cylinder_size))
 		return NULL;
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (!ped_geometry_init (&max_geom, dev, cylinder_size,
-			       	dev->length - cylinder_size))
+			       	max_length - cylinder_size))
 		return NULL;
 
 	return ped_constraint_new (&start_align, &end_align, &max_geom,
-- 
2.43.0


From 6de2f329842bb4c33ad6bd1312796226e1638b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 65/93] fix: compute the end of a BSD partition in 64 bits

---
 libparted/labels/bsd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 2db15b8..29ef13b 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -276,7 +276,7 @@ bsd_read (PedDisk* disk)
 		    || !label->d_partitions[i - 1].p_fstype)
 			continue;
 		start = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset);
-		end = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset)
+		end = start
 		      + PED_LE32_TO_CPU(label->d_partitions[i - 1].p_size) - 1;
 		part = ped_partition_new (disk, PED_PARTITION_NORMAL,
                                           NULL, start, end);
-- 
2.43.0


From 4cfbad0ffef703cf61e4c2e7903a3c3419ae7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 66/93] fix: do not read past an amiga block to compute its
 checksum

---
 libparted/fs/amiga/amiga.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 1a909fc..c1910ef 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -164,7 +164,8 @@ _amiga_checksum (struct AmigaBlock *blk) {
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end < 0 || end > PED_SECTOR_SIZE_DEFAULT / 4)
+		end = PED_SECTOR_SIZE_DEFAULT / 4;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 35fa9e07d993501763f71aa3abb804d1cfa8bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 67/93] fix: do not follow ext2 superblock copies in circles or
 off the device

---
 libparted/fs/ext2/interface.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/libparted/fs/ext2/interface.c b/libparted/fs/ext2/interface.c
index 5f64ab3..ddae8ac 100644
--- a/libparted/fs/ext2/interface.c
+++ b/libparted/fs/ext2/interface.c
@@ -32,7 +32,7 @@ static PedFileSystemType _ext3_type;
 struct ext2_dev_handle* ext2_make_dev_handle_from_parted_geometry(PedGeometry* geom);
 
 static PedGeometry*
-_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
+_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver, int follow)
 {
 	struct ext2_super_block *sb;
 	const int sectors = (4096 + geom->dev->sector_size - 1) /
@@ -78,16 +78,22 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 			PedSector start;
 			PedGeometry probe_geom;
 
+			/* only go once from a backup to the superblock */
+			if (!follow)
+				return NULL;
+
 			start = geom->start
 					- group_blocks * group_nr
 					- first_data_block;
 
 			if (start < 0)
 				return NULL;
-			ped_geometry_init (&probe_geom, geom->dev,
-					   start, block_count * block_size);
+			if (!ped_geometry_init (&probe_geom, geom->dev,
+						start,
+						block_count * block_size))
+				return NULL;
 			return _ext2_generic_probe (&probe_geom,
-                                                    expect_ext_ver);
+                                                    expect_ext_ver, 0);
 		} else {
 			return ped_geometry_new (geom->dev, geom->start,
 						 block_count * block_size);
@@ -100,19 +106,19 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 static PedGeometry*
 _ext2_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 2);
+	return _ext2_generic_probe (geom, 2, 1);
 }
 
 static PedGeometry*
 _ext3_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 3);
+	return _ext2_generic_probe (geom, 3, 1);
 }
 
 static PedGeometry*
 _ext4_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 4);
+	return _ext2_generic_probe (geom, 4, 1);
 }
 
 static PedFileSystemOps _ext2_ops = {
-- 
2.43.0


From dc44ad8e28563dcbd13b9cfda09327da3ad9eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 68/93] fix: look for a f2fs superblock at its place whatever
 the sector size

---
 libparted/fs/f2fs/f2fs.c | 7 +++++--
 libparted/fs/f2fs/f2fs.h | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/fs/f2fs/f2fs.c b/libparted/fs/f2fs/f2fs.c
index 68ed092..c55ffd7 100644
--- a/libparted/fs/f2fs/f2fs.c
+++ b/libparted/fs/f2fs/f2fs.c
@@ -26,9 +26,12 @@
 static PedGeometry*
 f2fs_probe (PedGeometry* geom)
 {
-        struct f2fs_super_block *sb = alloca(geom->dev->sector_size);
+        const int ss = geom->dev->sector_size;
+        uint8_t *buf = alloca (ss);
+        struct f2fs_super_block *sb
+                = (struct f2fs_super_block *) (buf + F2FS_SB_OFFSET % ss);
 
-        if (!ped_geometry_read (geom, sb, F2FS_SB_OFFSET, 1))
+        if (!ped_geometry_read (geom, buf, F2FS_SB_OFFSET / ss, 1))
                 return NULL;
 
         if (PED_LE32_TO_CPU(sb->magic) == F2FS_MAGIC)
diff --git a/libparted/fs/f2fs/f2fs.h b/libparted/fs/f2fs/f2fs.h
index 9341337..9572cde 100644
--- a/libparted/fs/f2fs/f2fs.h
+++ b/libparted/fs/f2fs/f2fs.h
@@ -20,7 +20,7 @@
 
 #define F2FS_MAGIC		0xF2F52010
 #define F2FS_MAX_VOLUME_NAME	512
-#define F2FS_SB_OFFSET		0x02
+#define F2FS_SB_OFFSET		1024	/* bytes */
 
 struct f2fs_super_block {
     uint32_t magic;			/* Magic Number */
-- 
2.43.0


From 48fd1b4b54052b8f8001995b2dca39c19cbf10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 69/93] fix: look for a reiserfs superblock at its place
 whatever the sector size

---
 libparted/fs/reiserfs/reiserfs.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/fs/reiserfs/reiserfs.c b/libparted/fs/reiserfs/reiserfs.c
index 0638f3e..32a4145 100644
--- a/libparted/fs/reiserfs/reiserfs.c
+++ b/libparted/fs/reiserfs/reiserfs.c
@@ -36,7 +36,8 @@
 
 #include "reiserfs.h"
 
-static PedSector reiserfs_super_offset[] = { 128, 16, -1 };
+/* in bytes */
+static PedSector reiserfs_super_offset[] = { 64 * 1024, 8 * 1024, -1 };
 static PedFileSystemType* reiserfs_type;
 
 static PedGeometry *reiserfs_probe(PedGeometry *geom)
@@ -47,9 +48,11 @@ static PedGeometry *reiserfs_probe(PedGeometry *geom)
 	reiserfs_super_block_t *sb = alloca (geom->dev->sector_size);
 
 	for (i = 0; reiserfs_super_offset[i] != -1; i++) {
-		if (reiserfs_super_offset[i] >= geom->length)
+		PedSector offset = reiserfs_super_offset[i]
+				   / geom->dev->sector_size;
+		if (offset >= geom->length)
 			continue;
-		if (!ped_geometry_read (geom, sb, reiserfs_super_offset[i], 1))
+		if (!ped_geometry_read (geom, sb, offset, 1))
 			continue;
 
 		if (strncmp(REISERFS_SIGNATURE, sb->s_magic,
-- 
2.43.0


From 9d84084a1f9444e640377cd992624c48ab19e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 70/93] fix: recognise FAT file systems on devices with larger
 sectors

---
 libparted/fs/fat/bootsector.c | 3 ++-
 libparted/fs/fat/fat.c        | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/fat/bootsector.c b/libparted/fs/fat/bootsector.c
index f02685b..62245b8 100644
--- a/libparted/fs/fat/bootsector.c
+++ b/libparted/fs/fat/bootsector.c
@@ -103,7 +103,8 @@ fat_boot_sector_probe_type (const FatBootSector* bs, const PedGeometry* geom)
 		  + 2 * PED_LE16_TO_CPU (bs->fat_length) * logical_sector_size
 		  + PED_LE16_TO_CPU (bs->dir_entries)
 			/ (512 / sizeof (FatDirEntry));
-	cluster_count = (geom->length - first_cluster_sector)
+	cluster_count = (geom->length * (geom->dev->sector_size / 512)
+			 - first_cluster_sector)
 			/ bs->cluster_size / logical_sector_size;
 	if (cluster_count > MAX_FAT12_CLUSTERS)
 		return FAT_TYPE_FAT16;
diff --git a/libparted/fs/fat/fat.c b/libparted/fs/fat/fat.c
index c04f178..692a073 100644
--- a/libparted/fs/fat/fat.c
+++ b/libparted/fs/fat/fat.c
@@ -81,8 +81,10 @@ fat_probe (PedGeometry* geom, FatType* fat_type)
 		goto error_free_fs;
 
 	*fat_type = fs_info->fat_type;
+	/* sector_count is in units of 512 bytes */
 	result = ped_geometry_new (geom->dev, geom->start,
-				   fs_info->sector_count);
+				   fs_info->sector_count
+				   / (geom->dev->sector_size / 512));
 
 	fat_free (fs);
 	return result;
-- 
2.43.0


From 99bd11e9910788466f61616c15185253a3fd0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 71/93] fix: check the signature of the alternate HFS master
 directory block

---
 libparted/fs/hfs/probe.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/fs/hfs/probe.c b/libparted/fs/hfs/probe.c
index d02ca28..ce8a3f8 100644
--- a/libparted/fs/hfs/probe.c
+++ b/libparted/fs/hfs/probe.c
@@ -90,6 +90,8 @@ hfs_and_wrapper_probe (PedGeometry* geom)
 	    || !(geom_ret = ped_geometry_new (geom->dev, geom->start, search + 2)))
 		return NULL;
 
+	/* the alternate master directory block is read to the start of buf */
+	mdb = (HfsMasterDirectoryBlock *) buf;
 	for (; search < max; search++) {
 		if (!ped_geometry_set (geom_ret, geom_ret->start, search + 2)
 		    || !ped_geometry_read (geom_ret, buf, search, 1))
-- 
2.43.0


From 2220ca5cf82153d1a99244ad287cda95da25cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 72/93] fix: do not divide by zero looking for swap where
 sectors are larger than pages

---
 libparted/fs/linux_swap/linux_swap.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/linux_swap/linux_swap.c b/libparted/fs/linux_swap/linux_swap.c
index 60100b0..8b1c82f 100644
--- a/libparted/fs/linux_swap/linux_swap.c
+++ b/libparted/fs/linux_swap/linux_swap.c
@@ -133,6 +133,8 @@ swap_init (PedFileSystem* fs)
 	SwapSpecific*	fs_info = SWAP_SPECIFIC (fs);
 
 	fs_info->page_sectors = getpagesize () / fs->geom->dev->sector_size;
+	if (!fs_info->page_sectors)
+		return 0;
 	fs_info->page_count = fs->geom->length / fs_info->page_sectors;
 	fs_info->version = 1;
 	fs_info->max_bad_pages = (getpagesize()
@@ -209,7 +211,8 @@ _swap_v0_open (PedGeometry* geom)
 	fs = swap_alloc (geom);
 	if (!fs)
 		goto error;
-	swap_init (fs);
+	if (!swap_init (fs))
+		goto error_free_fs;
 
 	fs_info = SWAP_SPECIFIC (fs);
 	if (!ped_geometry_read (fs->geom, fs_info->header, 0,
@@ -290,7 +293,8 @@ _swap_swsusp_open (PedGeometry* geom)
 	if (!fs)
 		goto error;
         fs->type = &_swap_swsusp_type;
-	swap_init (fs);
+	if (!swap_init (fs))
+		goto error_free_fs;
 
 	fs_info = SWAP_SPECIFIC (fs);
 	if (!ped_geometry_read (fs->geom, fs_info->header, 0,
-- 
2.43.0


From 53c8bb30806ad8b537732dd05c6f2626508475c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 73/93] fix: compare sizes of file systems in 64 bits when
 several are detected

---
 libparted/filesys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libparted/filesys.c b/libparted/filesys.c
index f67a4e8..43f5eba 100644
--- a/libparted/filesys.c
+++ b/libparted/filesys.c
@@ -206,7 +206,7 @@ ped_file_system_probe_specific (
 	return result;
 }
 
-static int
+static PedSector
 _geometry_error (const PedGeometry* a, const PedGeometry* b)
 {
 	PedSector	start_delta = a->start - b->start;
@@ -217,7 +217,7 @@ _geometry_error (const PedGeometry* a, const PedGeometry* b)
 
 static PedFileSystemType*
 _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
-	     const int detected_error [], int detected_count)
+	     const PedSector detected_error [], int detected_count)
 {
 	int		best_match = 0;
 	int		i;
@@ -237,7 +237,7 @@ _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
 		if (i == best_match)
 			continue;
 
-		if (abs (detected_error [best_match] - detected_error [i])
+		if (llabs (detected_error [best_match] - detected_error [i])
 				< min_error)
 			return NULL;
 	}
@@ -258,7 +258,7 @@ PedFileSystemType*
 ped_file_system_probe (PedGeometry* geom)
 {
 	PedFileSystemType*	detected[32];
-	int			detected_error[32];
+	PedSector		detected_error[32];
 	int			detected_count = 0;
 	PedFileSystemType*	walk = NULL;
 
-- 
2.43.0


From 9e2b3c93667982a23482611d48f989ff74406000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:16 +0000
Subject: [PATCH 74/93] fix: do not read past a block of an amiga label to
 compute its checksum

---
 libparted/labels/rdb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index f641ecd..c455a19 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -141,7 +141,8 @@ _amiga_checksum (struct AmigaBlock *blk) {
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end < 0 || end > PED_SECTOR_SIZE_DEFAULT / 4)
+		end = PED_SECTOR_SIZE_DEFAULT / 4;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 5846270c2af4001693471d01264cd7485b9ef9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:08 +0000
Subject: [PATCH 75/93] fix: use the block size and reserved blocks of amiga
 partitions, within them

---
 libparted/fs/amiga/affs.c  | 12 ++++++++----
 libparted/fs/amiga/amiga.c |  2 +-
 libparted/fs/amiga/apfs.c  | 11 ++++++++---
 libparted/fs/amiga/asfs.c  | 10 ++++++++--
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/libparted/fs/amiga/affs.c b/libparted/fs/amiga/affs.c
index 750eab2..939e9cb 100644
--- a/libparted/fs/amiga/affs.c
+++ b/libparted/fs/amiga/affs.c
@@ -69,6 +69,11 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 		reserved = reserved == 0 ? 1 : reserved;
 		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
 			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		/* a block has between 512 bytes and 64 KiB */
+		if (blocksize < 1 || blocksize > 128) {
+			free (part);
+			goto error_part;
+		}
 	}
 	free (part);
 
@@ -78,7 +83,7 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 			_("%s : Failed to allocate block\n"), __func__);
 		goto error_block;
 	}
-	if (!ped_device_read (geom->dev, block, geom->start, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read boot block %llu\n"), __func__, geom->start);
 		goto error;
@@ -90,9 +95,8 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	/* Find and test the root block */
 	len = geom->length / blocksize - reserved;
 	pos = (len - 1) / 2;
-	root = geom->start + (pos + reserved) * blocksize;
-
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	root = (pos + reserved) * blocksize;
+	if (root < 0 || !ped_geometry_read (geom, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index c1910ef..8669a55 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -329,7 +329,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		}
 
 		/* Current block is not a Partition Block */
-		if (part->pb_ID != IDNAME_PARTITION) {
+		if (PED_BE32_TO_CPU (part->pb_ID) != IDNAME_PARTITION) {
 			free (rdb);
 			return NULL;
 		}
diff --git a/libparted/fs/amiga/apfs.c b/libparted/fs/amiga/apfs.c
index aeaa1f3..1384db9 100644
--- a/libparted/fs/amiga/apfs.c
+++ b/libparted/fs/amiga/apfs.c
@@ -62,6 +62,11 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 		reserved = PED_BE32_TO_CPU (part->de_Reserved);
 		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
 			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		/* a block has between 512 bytes and 64 KiB */
+		if (blocksize < 1 || blocksize > 128) {
+			free (part);
+			goto error_part;
+		}
 	}
 	free (part);
 
@@ -71,7 +76,7 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 			_("%s : Failed to allocate block\n"), __func__);
 		goto error_block;
 	}
-	if (!ped_device_read (geom->dev, block, geom->start, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read boot block %llu\n"), __func__, geom->start);
 		goto error;
@@ -81,8 +86,8 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 
 	/* Find and test the root block */
-	root = geom->start+reserved*blocksize;
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	root = (PedSector) reserved * blocksize;
+	if (!ped_geometry_read (geom, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
diff --git a/libparted/fs/amiga/asfs.c b/libparted/fs/amiga/asfs.c
index c4c65e5..8b87efb 100644
--- a/libparted/fs/amiga/asfs.c
+++ b/libparted/fs/amiga/asfs.c
@@ -75,6 +75,11 @@ _asfs_probe (PedGeometry* geom)
 	if (amiga_find_part(geom, part) != NULL) {
 		blocksize = PED_BE32_TO_CPU (part->de_SizeBlock)
 			* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+		/* a block has between 512 bytes and 64 KiB */
+		if (blocksize < 1 || blocksize > 128) {
+			free (part);
+			goto error_part;
+		}
 	}
 	free (part);
 
@@ -85,7 +90,7 @@ _asfs_probe (PedGeometry* geom)
 		goto error_block;
 	}
 	root = geom->start;
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
@@ -99,7 +104,8 @@ _asfs_probe (PedGeometry* geom)
 		found++;
 	}
 	root = geom->end - blocksize - (geom->length % blocksize) + 1;
-	if (!ped_device_read (geom->dev, block, root, 1)) {
+	if (root < geom->start
+	    || !ped_geometry_read (geom, block, root - geom->start, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
-- 
2.43.0


From 03e9002efe8a207fc51ec612b5189f31cf50df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:41 +0000
Subject: [PATCH 76/93] fix: look for the alternate HFS+ header where older
 versions put it

---
 libparted/fs/hfs/probe.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libparted/fs/hfs/probe.c b/libparted/fs/hfs/probe.c
index ce8a3f8..cecf5d7 100644
--- a/libparted/fs/hfs/probe.c
+++ b/libparted/fs/hfs/probe.c
@@ -129,7 +129,7 @@ hfsplus_probe (PedGeometry* geom)
 			return geom_ret;
 	} else {
 		/* This is a standalone HFS+ volume ? */
-		PedSector	search, max;
+		PedSector	search, max, old;
 		HfsPVolumeHeader *vh;
 		vh = (HfsPVolumeHeader *) buf;
 
@@ -148,6 +148,10 @@ hfsplus_probe (PedGeometry* geom)
 		      - 2;
 		search = max - 2 * ( PED_BE32_TO_CPU (vh->block_size)
 				     / PED_SECTOR_SIZE_DEFAULT ) + 2;
+		/* vh is overwritten by what is read below */
+		old = ((PedSector) PED_BE32_TO_CPU (vh->total_blocks) - 1)
+		      * ( PED_BE32_TO_CPU (vh->block_size) / PED_SECTOR_SIZE_DEFAULT )
+		      - 1;
 		if ((search < 0)
 		    || !(geom_ret = ped_geometry_new (geom->dev, geom->start,
 						      search + 2)))
@@ -161,9 +165,7 @@ hfsplus_probe (PedGeometry* geom)
 			if (vh->signature == PED_CPU_TO_BE16 (HFSP_SIGNATURE))
 				return geom_ret;
 		}
-		search = ((PedSector) PED_BE32_TO_CPU (vh->total_blocks) - 1)
-		      * ( PED_BE32_TO_CPU (vh->block_size) / PED_SECTOR_SIZE_DEFAULT )
-		      - 1;
+		search = old;
 		if ((search < 0)
 		    || !ped_geometry_set (geom_ret, geom_ret->start,
 					  search + 2)
-- 
2.43.0


From 35498d58c83241611837ee3a9af53835829cb9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 77/93] fix: exit with a failure status when a command line
 names an unknown command

---
 parted/ui.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index d6d1da4..3acbc4d 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -1680,11 +1680,15 @@ non_interactive_mode (PedDevice** dev, PedDisk **disk, Command* cmd_list[],
                         break;
 
                 cmd = command_get (commands, word);
-                free (word);
                 if (!cmd) {
-                        help_msg ();
+                        ped_exception_throw (PED_EXCEPTION_ERROR,
+                                             PED_EXCEPTION_CANCEL,
+                                             _("Unknown command \"%s\"."),
+                                             word);
+                        free (word);
                         goto error;
                 }
+                free (word);
                 if (!(cmd->non_interactive)) {
                         fputs(_("This command does not make sense in "
                                 "non-interactive mode.\n"), stdout);
-- 
2.43.0


From 3a7813769fdbdfd06fe4beae05909fce38d5eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 78/93] fix: refuse a number that is followed by something else

---
 parted/ui.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 3acbc4d..190931c 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -927,6 +927,7 @@ command_line_get_integer (const char* prompt, int* value)
 {
         char     def_str [20];
         char*    input;
+        char*    end;
         long     ret;
 
         snprintf (def_str, 20, "%d", *value);
@@ -936,8 +937,8 @@ command_line_get_integer (const char* prompt, int* value)
                 return 0;
 
         errno = 0;
-        ret = strtol (input, (char**) NULL, 10);
-        if (errno)
+        ret = strtol (input, &end, 10);
+        if (errno || end == input || *end)
                 goto error;
 
         if ((ret > INT_MAX) || (ret < INT_MIN))
-- 
2.43.0


From ab5a748a96a21b492053bcf0ddbcea469f8b97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 79/93] fix: refuse a type-id that is not a number of one byte

---
 parted/parted.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index fc2aeba..2ad4be7 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -966,8 +966,9 @@ do_type (PedDevice** dev, PedDisk** diskp)
                 if (!input)
                     goto error;
 
-                unsigned int tmp = strtol (input, (char**) NULL, 16);
-                if (tmp < 0x01 || tmp > 0xff) {
+                char *end;
+                long tmp = strtol (input, &end, 16);
+                if (end == input || *end || tmp < 0x01 || tmp > 0xff) {
                         ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
                                              _("Invalid type-id."));
                         goto error_free_input;
-- 
2.43.0


From 43814d47a5d2b381f27917cfd9b815c01d40682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 80/93] fix: resizepart fails when the new table cannot be
 written

---
 parted/parted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 2ad4be7..8f7919d 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1915,7 +1915,8 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                             _("Shrinking a partition can cause data loss, " \
                               "are you sure you want to continue?")) != PED_EXCEPTION_YES)
                         goto error_destroy_constraint;
-        ped_disk_commit (disk);
+        if (!ped_disk_commit (disk))
+                goto error_destroy_constraint;
 
         if ((*dev)->type != PED_DEVICE_FILE)
                 disk_is_modified = 1;
-- 
2.43.0


From b7f72b81a4b84a04709da26c4d76b016b98ae6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 81/93] fix: resizepart keeps the end when its default is taken
 in a power of two unit

---
 parted/parted.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index 8f7919d..c31668c 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -644,6 +644,10 @@ _adjust_end_if_iec (PedSector* start, PedSector* end,
         if (*start == *end)
                 return;
 
+        /* the default, which is the exact sector */
+        if (!end_input)
+                return;
+
         _strip_trailing_spaces(end_input);
         PedUnit unit = ped_unit_get_default();
         if (_string_ends_with_iec_unit(end_input) ||
-- 
2.43.0


From 8527cf22a1ca95ac938dc51b1f15a8924e48e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 82/93] fix: say what is missing when a location or a flag is
 not given

---
 parted/ui.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 190931c..7550f0b 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -988,6 +988,8 @@ command_line_get_sector (const char* prompt, PedDevice* dev, PedSector* value,
                 *value = 0;
                 if (range)
                         *range = NULL;
+                ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                                     _("Expecting a location."));
                 return 0;
         }
 
@@ -1182,8 +1184,10 @@ command_line_get_disk_flag (const char* prompt, const PedDisk* disk,
                 *flag = ped_disk_flag_get_by_name (flag_name);
                 free (flag_name);
                 return 1;
-        } else
-                return 0;
+        }
+        ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                             _("Expecting a flag."));
+        return 0;
 }
 
 int
@@ -1218,8 +1222,10 @@ command_line_get_part_flag (const char* prompt, const PedPartition* part,
                 *flag = ped_partition_flag_get_by_name (flag_name);
                 free (flag_name);
                 return 1;
-        } else
-                return 0;
+        }
+        ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                             _("Expecting a flag."));
+        return 0;
 }
 
 static int
-- 
2.43.0


From 90c79d21e59692ac24386eef088708aef528129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 83/93] fix: resizepart refuses an end before the start of the
 partition

---
 parted/parted.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index c31668c..a9a8cc9 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1906,6 +1906,12 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                 goto error;
         _adjust_end_if_iec(&start, &end, range_end, end_input);
 
+        if (end < start) {
+                ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                                     _("Can't have the end before the start!"));
+                goto error;
+        }
+
         /* Do not move start of the partition */
         constraint = constraint_from_start_end_fixed_start (*dev, start, range_end);
         if (!ped_disk_set_partition_geom (disk, part, constraint,
-- 
2.43.0


From 2689eee45f05da3458f7b6d3f91c5d44fa369cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 84/93] fix: take the default of a question as it is, quotes
 and all

---
 parted/ui.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 7550f0b..96c16ad 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -848,7 +848,7 @@ command_line_prompt_words (const char* prompt, const char* def,
 
         if (opt_script_mode) {
                 if (_def) {
-                        command_line_push_line (_def, 0);
+                        command_line_push_word (_def);
                         if (_def_needs_free)
                                 free (_def);
                 }
@@ -868,7 +868,7 @@ command_line_prompt_words (const char* prompt, const char* def,
 
                 if (!strlen (line)) {
                         if (_def)
-                                command_line_push_line (_def, 0);
+                                command_line_push_word (_def);
                 } else {
                         command_line_push_line (line, multi_word);
                 }
-- 
2.43.0


From 9a3425cf1bb2f4bcad7a5197a8aecfe5f6bb1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:16 +0000
Subject: [PATCH 85/93] fix: report that a partition's name could not be set

---
 include/parted/disk.in.h | 2 +-
 libparted/disk.c         | 3 +--
 libparted/labels/dvh.c   | 4 +++-
 libparted/labels/gpt.c   | 8 +++++---
 libparted/labels/mac.c   | 5 +++--
 libparted/labels/pc98.c  | 3 ++-
 libparted/labels/rdb.c   | 3 ++-
 7 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/parted/disk.in.h b/include/parted/disk.in.h
index 8f6a5c3..0d28031 100644
--- a/include/parted/disk.in.h
+++ b/include/parted/disk.in.h
@@ -255,7 +255,7 @@ struct _PedDiskOps {
         int (*partition_is_flag_available) (
                 const PedPartition* part,
                 PedPartitionFlag flag);
-        void (*partition_set_name) (PedPartition* part, const char* name);
+        int (*partition_set_name) (PedPartition* part, const char* name);
         const char* (*partition_get_name) (const PedPartition* part);
 
         int (*partition_set_type_id) (PedPartition* part, uint8_t id);
diff --git a/libparted/disk.c b/libparted/disk.c
index 48bead4..3079539 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -1574,8 +1574,7 @@ ped_partition_set_name (PedPartition* part, const char* name)
 		return 0;
 
 	PED_ASSERT (part->disk->type->ops->partition_set_name != NULL);
-	part->disk->type->ops->partition_set_name (part, name);
-	return 1;
+	return part->disk->type->ops->partition_set_name (part, name);
 }
 
 /**
diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7bc363a..993ba50 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -710,7 +710,7 @@ dvh_partition_is_flag_available (const PedPartition* part,
 	return 1;
 }
 
-static void
+static int
 dvh_partition_set_name (PedPartition* part, const char* name)
 {
 	DVHPartData* dvh_part_data = part->disk_specific;
@@ -728,7 +728,9 @@ dvh_partition_set_name (PedPartition* part, const char* name)
                           "Only logical partitions (boot files) have a name."),
                         name);
 #endif
+		return 0;
 	}
+	return 1;
 }
 
 static const char*
diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index eec434a..e5de3ad 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1712,7 +1712,7 @@ gpt_partition_is_flag_available (const PedPartition *part,
   return 0;
 }
 
-static void
+static int
 gpt_partition_set_name (PedPartition *part, const char *name)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
@@ -1736,12 +1736,14 @@ gpt_partition_set_name (PedPartition *part, const char *name)
       gpt_part_data->translated_name = NULL;
     }
   iconv_close (conv);
-  return;
+  return 1;
  err:
   ped_exception_throw (PED_EXCEPTION_WARNING,
                        PED_EXCEPTION_IGNORE,
                        _("failed to translate partition name"));
-  iconv_close (conv);
+  if (conv != (iconv_t)-1)
+    iconv_close (conv);
+  return 0;
 }
 
 static const char *
diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 00e059d..07ee569 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1343,7 +1343,7 @@ mac_partition_is_flag_available (
 	}
 }
 
-static void
+static int
 mac_partition_set_name (PedPartition* part, const char* name)
 {
 	MacPartitionData*	mac_data;
@@ -1361,7 +1361,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 			_("Changing the name of a root or swap partition "
 			  "will prevent Linux from recognising it as such."))
 				!= PED_EXCEPTION_IGNORE)
-			return;
+			return 0;
 		mac_data->is_root = mac_data->is_swap = 0;
 	}
 #endif
@@ -1372,6 +1372,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	for (i = strlen (mac_data->volume_name) - 1;
 			mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
+	return 1;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 6c3542e..fd51a9e 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -621,7 +621,7 @@ pc98_partition_is_flag_available (
 	}
 }
 
-static void
+static int
 pc98_partition_set_name (PedPartition* part, const char* name)
 {
 	PC98PartitionData*	pc98_data;
@@ -635,6 +635,7 @@ pc98_partition_set_name (PedPartition* part, const char* name)
 	pc98_data->name [16] = 0;
 	for (i = strlen (pc98_data->name) - 1; pc98_data->name[i] == ' '; i--)
 		pc98_data->name [i] = 0;
+	return 1;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index c455a19..65544ca 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -1025,7 +1025,7 @@ amiga_partition_is_flag_available (const PedPartition* part,
 	}
 }
 
-static void
+static int
 amiga_partition_set_name (PedPartition* part, const char* name)
 {
 	struct PartitionBlock *partition;
@@ -1035,6 +1035,7 @@ amiga_partition_set_name (PedPartition* part, const char* name)
 
 	partition = PART(part->disk_specific);
 	_amiga_set_bstr(name, partition->pb_DriveName, 32);
+	return 1;
 }
 static const char*
 amiga_partition_get_name (const PedPartition* part)
-- 
2.43.0


From dd3d651a1ef9a98c7a3109e4cd273c32a63bc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:47 +0000
Subject: [PATCH 86/93] fix: clobber the end of the region a file system is
 resized to, not one beyond it

The offset was taken from the length of the device, but is counted from the
start of the region, so that growing or moving a file system towards the
start of the device always failed.
---
 libparted/fs/r/filesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/fs/r/filesys.c b/libparted/fs/r/filesys.c
index 856238c..3055966 100644
--- a/libparted/fs/r/filesys.c
+++ b/libparted/fs/r/filesys.c
@@ -232,7 +232,7 @@ ped_file_system_clobber (PedGeometry* geom)
   int ok = (len <= 5
 	    ? ptt_geom_clear_sectors (geom, 0, len)
 	    : (ptt_geom_clear_sectors (geom, 0, 3)
-	       && ptt_geom_clear_sectors (geom, geom->dev->length - 2, 2)));
+	       && ptt_geom_clear_sectors (geom, len - 2, 2)));
 
   ped_device_close (geom->dev);
   return !!ok;
-- 
2.43.0


From 181b3d1bdc5cac2e898657d6b2d48aedb46f737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:47 +0000
Subject: [PATCH 87/93] fix: free the clusters of the new file system when the
 FAT32 root directory goes

They were computed with the fragments of the old file system, so that with
smaller clusters others than those of the root directory were freed.
---
 libparted/fs/r/fat/resize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 78dede4..5a47204 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -270,12 +270,12 @@ free_root_dir (FatOpContext* ctx)
 	     old_cluster = fat_table_get (old_fs_info->fat, old_cluster)) {
 		FatFragment old_frag;
 		old_frag = fat_cluster_to_frag (ctx->old_fs, old_cluster);
-		for (i = 0; i < new_fs_info->cluster_frags; i++) {
+		for (i = 0; i < old_fs_info->cluster_frags; i++) {
 			FatFragment new_frag;
 			FatCluster new_clst;
 			new_frag = fat_op_context_map_fragment (ctx,
 								old_frag + i);
-			new_clst = fat_frag_to_cluster (ctx->old_fs, new_frag);
+			new_clst = fat_frag_to_cluster (ctx->new_fs, new_frag);
 			if (!fat_table_set_avail (new_fs_info->fat, new_clst))
 				return 0;
 		}
-- 
2.43.0


From 19d1f1487dca0dddbbf56eabd8bc2540061c6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:47 +0000
Subject: [PATCH 88/93] fix: collect what the clusters of a resized FAT file
 system are used for

Resizing it again without closing it went by uninitialised memory and lost
files.
---
 libparted/fs/r/fat/resize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 5a47204..b75bf2f 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -865,7 +865,8 @@ fat_resize (PedFileSystem* fs, PedGeometry* geom, PedTimer* timer)
 	if (!resize_context_assimilate (ctx))
 		goto error;
 
-	return 1;
+	/* the clusters have moved: a further resize needs to know where to */
+	return fat_collect_cluster_info (fs);
 
 error_abort_ctx:
 	resize_context_abort (ctx);
-- 
2.43.0


From a7469ba126f7652cf7cce0b632bd42fcafde12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:10 +0000
Subject: [PATCH 89/93] fix: count no room for data where the tables of a
 resized FAT file system grow

---
 libparted/fs/r/fat/fat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/fs/r/fat/fat.c b/libparted/fs/r/fat/fat.c
index 6583b5b..68d44f8 100644
--- a/libparted/fs/r/fat/fat.c
+++ b/libparted/fs/r/fat/fat.c
@@ -515,6 +515,8 @@ _calc_resize_data_size (
 	PedSector	fat_size_delta;
 
 	fat_size_delta = old_fs_info->fat_sectors - new_fat_size;
+	if (fat_size_delta < 0)		/* larger tables give no room */
+		fat_size_delta = 0;
 	return new_cluster_sectors * new_cluster_count - fat_size_delta * 2;
 }
 
-- 
2.43.0


From 05ab0726cf748816bd8aae68527179f537d8c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 90/93] fix: keep the old directories until they are read when
 converting from FAT32 to FAT16

---
 libparted/fs/r/fat/resize.c | 31 ++++---------------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index b75bf2f..e270492 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -154,12 +154,14 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 
 		new_dir_entry = fat_traverse_next_dir_entry (new_trav);
 		if (!new_dir_entry) {
-			return ped_exception_throw (PED_EXCEPTION_ERROR,
+			if (ped_exception_throw (PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_IGNORE_CANCEL,
 				_("There's not enough room in the root "
 				  "directory for all of the files.  Either "
 				  "cancel, or ignore to lose the files."))
-					== PED_EXCEPTION_IGNORE;
+					!= PED_EXCEPTION_IGNORE)
+				return 0;
+			break;
 		}
 
 		*new_dir_entry = *old_dir_entry;
@@ -284,30 +286,6 @@ free_root_dir (FatOpContext* ctx)
 	return 1;
 }
 
-static int
-fat_clear_root_dir (PedFileSystem* fs)
-{
-	FatSpecific*	fs_info = FAT_SPECIFIC (fs);
-	int		i;
-
-	PED_ASSERT (fs_info->fat_type == FAT_TYPE_FAT16);
-	PED_ASSERT (fs_info->root_dir_sector_count);
-
-	memset (fs_info->buffer, 0, 512);
-
-	for (i = 0; i < fs_info->root_dir_sector_count; i++) {
-		if (!ped_geometry_write (fs->geom, fs_info->buffer,
-					 fs_info->root_dir_offset + i, 1)) {
-			if (ped_exception_throw (PED_EXCEPTION_ERROR,
-				PED_EXCEPTION_IGNORE_CANCEL,
-				_("Error writing to the root directory."))
-					== PED_EXCEPTION_CANCEL)
-				return 0;
-		}
-	}
-	return 1;
-}
-
 static int
 fat_construct_converted_tree (FatOpContext* ctx)
 {
@@ -323,7 +301,6 @@ fat_construct_converted_tree (FatOpContext* ctx)
 		old_trav_info = fat_traverse_begin (ctx->old_fs, FAT_ROOT,
 						    "\\");
 	} else {
-		fat_clear_root_dir (ctx->new_fs);
 		new_trav_info = fat_traverse_begin (ctx->new_fs, FAT_ROOT,
 						    "\\");
 		if (!new_trav_info) return 0;
-- 
2.43.0


From 080e5e61d7c3f5d216e229f67884dbd1cc572c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 91/93] fix: count the clusters of a resized FAT file system
 again where its tables grow

---
 libparted/fs/r/fat/calc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/fs/r/fat/calc.c b/libparted/fs/r/fat/calc.c
index 4ba1030..088619f 100644
--- a/libparted/fs/r/fat/calc.c
+++ b/libparted/fs/r/fat/calc.c
@@ -211,6 +211,9 @@ calc_sizes (PedSector size, PedSector align, FatType fat_type,
 				          entries_per_sector (fat_type))) {
 		fat_space = ped_div_round_up (cluster_count + 2,
 					      entries_per_sector (fat_type));
+		/* the larger tables leave less room for clusters */
+		cluster_space = data_fat_space - 2 * fat_space;
+		cluster_count = cluster_space / cluster_sectors;
 	}
 
 	if (cluster_count > fat_max_cluster_count (fat_type)
-- 
2.43.0


From 79f3401e92033e7359d2e5eea3f883e82c9c175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:45 +0000
Subject: [PATCH 92/93] fix: let the last two clusters of a FAT file system be
 allocated

---
 libparted/fs/r/fat/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/r/fat/table.c b/libparted/fs/r/fat/table.c
index ec0907f..43d68a8 100644
--- a/libparted/fs/r/fat/table.c
+++ b/libparted/fs/r/fat/table.c
@@ -330,8 +330,8 @@ fat_table_alloc_cluster (FatTable* ft)
 /* hack: assumes the first two FAT entries are marked as used (which they
  * always should be)
  */
-	for (i=1; i < ft->cluster_count + 1; i++) {
-		cluster = (i + ft->last_alloc) % ft->cluster_count;
+	for (i=1; i < ft->cluster_count + 3; i++) {
+		cluster = (i + ft->last_alloc) % (ft->cluster_count + 2);
 		if (fat_table_is_available (ft, cluster)) {
 			ft->last_alloc = cluster;
 			return cluster;
-- 
2.43.0


From 58ad243cd1a3222609b0be8f57611057bd43ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:23 +0000
Subject: [PATCH 93/93] fix: do not offer the hidden flag on an extended
 partition

With the flag on, the partition's id is 0x15, which is not read as an
extended partition: the logical partitions were lost.
---
 libparted/labels/dos.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index f6d496a..1420890 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -151,15 +151,13 @@ dos_find_flag_id_mapping (PedPartitionFlag flag)
 
 /**
  * Check whether the type_id supports the hidden flag. Returns true for both hidden and
- * non-hidden id.
+ * non-hidden id. An extended partition does not, as it is known by its id only.
  */
 static bool
 dos_type_id_supports_hidden(unsigned char type_id)
 {
     switch (type_id)
     {
-	case PARTITION_DOS_EXT:
-	case PARTITION_DOS_EXT_H:
 	case PARTITION_FAT12:
 	case PARTITION_FAT12_H:
 	case PARTITION_FAT16:
@@ -189,7 +187,6 @@ dos_type_id_is_hidden(unsigned char type_id)
 {
     switch (type_id)
     {
-	case PARTITION_DOS_EXT_H:
 	case PARTITION_FAT12_H:
 	case PARTITION_FAT16_H:
 	case PARTITION_FAT16_LBA_H:
-- 
2.43.0

