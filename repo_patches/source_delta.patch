From cf70e5f16f97f0cc074483c26218b4399aa94cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 01/17] fix: byte stuffing of runs such as FF FF FF FD

The pattern matcher started over after a mismatch, even if the mismatching
byte was itself the start of the pattern. FF FF FD preceded by FF was sent
without byte stuffing and not unstuffed on reception.
---
 src/bus/bytestuff.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..50437fd 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,24 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of bytes of the pattern matched after one more byte of data.
+///
+/// After a mismatch, the data may still end with the start of the pattern (as in `FF FF FF FD`).
+fn next_state(state: usize, byte: u8) -> usize {
+	if byte == PATTERN[state] {
+		state + 1
+	} else if byte == PATTERN[0] {
+		// Either we saw at-least two 0xFF bytes, or only this one.
+		if state == 2 {
+			2
+		} else {
+			1
+		}
+	} else {
+		0
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +34,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +51,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From 3c30093c4ef62f42554ce9b1d6627b454e4527cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 02/17] fix: reserve room for the checksum when byte stuffing a
 packet

A stuffed packet that left less than two bytes for the checksum
caused an index out of bounds panic instead of a BufferTooSmall error.
---
 src/bus/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..66a41f8 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -205,7 +205,15 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Leave room for the checksum at the end of the buffer.
+		let checksum_start = buffer.len() - 2;
+		let stuffed_body_len =
+			bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..checksum_start], 1 + parameter_count).map_err(|e| {
+				crate::error::BufferTooSmallError {
+					required_size: HEADER_SIZE + e.required_size + 2,
+					total_size: HEADER_SIZE + e.total_size + 2,
+				}
+			})?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From a32d7077e768425f5bc6c9ee9f4a09b50e317026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 03/17] fix: refuse packets that do not fit the 16-bit length
 field

With a large enough write buffer, the length of the message was
truncated to 16 bits and a corrupt packet was sent.
---
 src/bus/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 66a41f8..4f1d419 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -192,6 +192,10 @@ where
 	{
 		let buffer = self.write_buffer.as_mut();
 
+		// The length field counts everything after the header, and can not represent more than `u16::MAX` bytes.
+		let usable_len = buffer.len().min(HEADER_SIZE + usize::from(u16::MAX));
+		let buffer = &mut buffer[..usable_len];
+
 		// Check if the buffer can hold the unstuffed message.
 		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;
 
-- 
2.43.0


From 82587fe07c8696de64ccbf93438215c96d6b39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 04/17] fix: reserve room for the whole value in reg_write

The parameter count was that of a single byte value, so that
registered writes of any other type failed or sent garbage.
---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From e3a4280dfdef14530ca33a23ff7fab8e92a77f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 05/17] fix: use the encoded size of the value in sync_write

The size of a u8 was used for every type, so that sync writes of
larger values failed, and the wrong length was sent otherwise.
---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..8f6a967 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From 903ec2e63a2a68fbbda1f789d166c189a6b84811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 06/17] fix: keep bulk writes as bulk writes in owned
 instructions

Device::read_owned() reported a bulk write as a bulk read.
---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From c5a405deb5c165e17f224e7af54b1a5254542c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 07/17] fix: send the right kind in the clear error instruction

The first parameter selects what to clear: 0x01 is the revolution
counter, 0x02 are the errors.
---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From cd2079845edee16de6d286d6e966fa490e2dcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 08/17] fix: do not drop the elements of a decoded array twice

ArrayInitializer::finish() copied the elements out, but still
dropped them with the initializer.
---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..9327d74 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -143,7 +143,9 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 		debug_assert!(self.initialized == N);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		// The elements are moved out, so they must not be dropped with `self`.
+		let this = core::mem::ManuallyDrop::new(self);
+		core::ptr::read(this.data.as_ptr().cast())
 	}
 }
 
-- 
2.43.0


From 2c8e257a0cda8d70c7a65fd5b5b6b1e317fd9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 09/17] fix: check the size of the buffer when decoding an
 array

Decoding an array from a buffer that is too short panicked,
and excess data was ignored instead of being reported.
---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 9327d74..2bf83e8 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From 01bf376c4f9b4b4bd8a93f6f8d2f9ca5b23dc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 10/17] fix: panic on duplicate motor IDs in bulk_write

This is documented, since the protocol forbids it,
but it was only checked for bulk reads.
---
 src/instructions/bulk_write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..47c0926 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -56,8 +56,13 @@ where
 
 		let writes = writes.into_iter();
 		let mut parameter_count = 0;
-		for write in writes.clone() {
+		for (i, write) in writes.clone().enumerate() {
 			let write = write.borrow();
+			for (j, other) in writes.clone().enumerate().skip(i + 1) {
+				if write.motor_id == other.borrow().motor_id {
+					panic!("bulk_write: motor ID {} used multiple times, at index {} and {}", write.motor_id, i, j);
+				}
+			}
 			let data = write.data.as_ref();
 			if data.len() > u16::MAX.into() {
 				panic!(
-- 
2.43.0


From 9c223ee4c56fa86b985fafcc2155e573fac3d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 11/17] fix: report messages that are too short instead of
 panicking

A message with a length field below 3 has no room for an instruction ID
and a checksum, and caused an out of bounds panic in the reader.
---
 src/bus/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 4f1d419..1b55e5b 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -273,6 +273,16 @@ where
 			self.read_len += new_data;
 		};
 
+		// A message must at-least have an instruction ID and a checksum.
+		if stuffed_message_len < HEADER_SIZE + 3 {
+			self.consume_read_bytes(stuffed_message_len);
+			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+				actual: 0,
+				expected: crate::ExpectedCount::Min(1),
+			})
+			.into());
+		}
+
 		let buffer = self.read_buffer.as_mut();
 		let parameters_end = stuffed_message_len - 2;
 		trace!("read packet: {:02X?}", &buffer[..parameters_end]);
-- 
2.43.0


From 166464c72259d530f2bbee1002fa3c5f4e37bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 12/17] fix: reject status packets without error field

The parameter count includes the instruction ID at this point, so that
the check never failed, and reading the error field panicked.
---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 1b55e5b..ad202da 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -308,8 +308,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (included in parameter_count here, as is the instruction ID).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From d712cad52920d65c2f479fd0e819c384aff99f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 13/17] fix: check the motor ID of replies to write-like
 instructions

Write, registered write, action, reboot, factory reset and clear
accepted a reply of any motor.
---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From 3443f65c048519f510d7d453a71031f8a26ab6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 14/17] fix: do not hang when dropping a scan with a broken
 serial port

Dropping a scan read replies until a time-out occurred, which never
happens if the serial port keeps failing or the read buffer is too small.
---
 src/instructions/ping.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..3ad31d2 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -115,7 +115,13 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		// There can be no more than 253 motors on the bus.
+		// Without an upper limit, we would never stop if reading keeps failing with something other than a time-out.
+		for _ in 0..253 {
+			if self.next().is_none() {
+				break;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From a70654092ce16c50ab0afb041b78271ffb48e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 15/17] fix: let the command line tool read and write more than
 fits in 128 byte messages

---
 dynamixel2-cli/src/bin/dynamixel2/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dynamixel2-cli/src/bin/dynamixel2/main.rs b/dynamixel2-cli/src/bin/dynamixel2/main.rs
index 2b94453..ccc9aad 100644
--- a/dynamixel2-cli/src/bin/dynamixel2/main.rs
+++ b/dynamixel2-cli/src/bin/dynamixel2/main.rs
@@ -6,6 +6,9 @@ mod options;
 
 use options::{Command, MotorId, Options};
 
+/// The size of the largest possible message: 7 header bytes and a body with a 16 bit length.
+const MAX_MESSAGE_LEN: usize = 7 + u16::MAX as usize;
+
 fn main() {
 	if let Err(()) = do_main(clap::Parser::parse()) {
 		std::process::exit(1);
@@ -179,7 +182,10 @@ fn do_main(options: Options) -> Result<(), ()> {
 }
 
 fn open_client(options: &Options) -> Result<dynamixel2::Client, ()> {
-	let client = dynamixel2::Client::open(&options.serial_port, options.baud_rate)
+	// The default buffers of the client only fit messages of up to 128 bytes.
+	let read_buffer = vec![0; MAX_MESSAGE_LEN];
+	let write_buffer = vec![0; MAX_MESSAGE_LEN];
+	let client = dynamixel2::Client::open_with_buffers(&options.serial_port, options.baud_rate, read_buffer, write_buffer)
 		.map_err(|e| log::error!("Failed to open serial port: {}: {}", options.serial_port.display(), e))?;
 	log::debug!(
 		"Using serial port {} with baud rate {}",
-- 
2.43.0


From 686a11d1731acfaf75cb70ccb1341ee1da6bc928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 16/17] fix: reject a baud rate of 0 on the command line

---
 dynamixel2-cli/src/bin/dynamixel2/options.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynamixel2-cli/src/bin/dynamixel2/options.rs b/dynamixel2-cli/src/bin/dynamixel2/options.rs
index 54226e8..bf6b311 100644
--- a/dynamixel2-cli/src/bin/dynamixel2/options.rs
+++ b/dynamixel2-cli/src/bin/dynamixel2/options.rs
@@ -23,6 +23,7 @@ pub struct Options {
 	#[clap(long, short)]
 	#[clap(global = true)]
 	#[clap(default_value = "57600")]
+	#[clap(value_parser = clap::value_parser!(u32).range(1..))]
 	pub baud_rate: u32,
 
 	#[clap(subcommand)]
-- 
2.43.0


From 899d0cf032c903bb12b9c279ea13f00a2d253291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:11 +0000
Subject: [PATCH 17/17] fix: log the garbage that is skipped, not the packet in
 front of it

---
 src/bus/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index ad202da..de4f0ce 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -326,7 +326,7 @@ where
 		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
 		if garbage_len > 0 {
 			debug!("skipping {} bytes of leading garbage.", garbage_len);
-			trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);
+			trace!("skipped garbage: {:02X?}", &read_buffer[self.used_bytes..][..garbage_len]);
 		}
 		self.consume_read_bytes(self.used_bytes + garbage_len);
 		debug_assert_eq!(self.used_bytes, 0);
-- 
2.43.0

