From a2222f535982764d4142d7241a43771daf5f7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 01/13] fix: push OP_RETURN messages of 76 to 80 bytes with
 OP_PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..c732899 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -482,7 +482,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From b9e2089d91095181ac1b08c45237dccb452654d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 02/13] fix: generate WIFs that match the compressed public key
 of the generated address

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From f8a1a58b67667d7fe3ee24e22b2782390f27e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 03/13] fix: RPC balances must be exact and must not change the
 global decimal precision

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..7110e05 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), 'btc')
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From 8e06ebd48edab938764f8447891bf1ef003a5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 04/13] fix: Bitcore balance errors must be ConnectionErrors so
 that other services are tried

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 7110e05..1594d0a 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From 00f321cb012868c4b0145acc8486593de386e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 05/13] fix: Blockchair unspents of an unknown address are an
 empty list, not None

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 1594d0a..8533292 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From e93efacb56e3b3387515b7b0348cdb59d73b44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 06/13] fix: refuse Base58Check addresses that do not hold a
 20-byte hash

---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..60108de 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -39,7 +39,10 @@ def verify_sig(signature, data, public_key):
 def address_to_public_key_hash(address):
     # Raise ValueError if we cannot identify the address.
     get_version(address)
-    return b58decode_check(address)[1:]
+    public_key_hash = b58decode_check(address)[1:]
+    if len(public_key_hash) != 20:
+        raise ValueError('{} does not encode a 20-byte hash.'.format(address))
+    return public_key_hash
 
 
 def get_version(address):
-- 
2.43.0


From c9643f2857ce270811ec70b3f960c8cd6b0cba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 07/13] fix: raise ValueError for invalid segwit addresses with
 a valid checksum

---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index c732899..c72fe2d 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -460,6 +460,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if witver is None:
+            raise ValueError('{} is not a valid segwit address.'.format(address)) from None
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From 6e2a96fd270ceaa430544b4579c8a064ec2b545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 08/13] fix: serialise a zero witness count for inputs without
 witness in segwit transactions

---
 bit/transaction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c72fe2d..a73e282 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -152,7 +152,10 @@ class TxObj:
     def __bytes__(self):
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
-        wit = b''.join([w.witness for w in self.TxIn])
+        wit = b''
+        if any(i.witness for i in self.TxIn):
+            # Inputs without a witness have zero witness items:
+            wit = b''.join([i.witness or b'\x00' for i in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From 162a00ea45cc85fa8268d70d5e0f5c632a0227b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 09/13] fix: refuse multisig redeemscripts that require less
 than one signature

---
 bit/format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 60108de..fdb3798 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -145,6 +145,8 @@ def multisig_to_redeemscript(public_keys, m):
 
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
 
     redeemscript = int_to_unknown_bytes(m + 80)
 
-- 
2.43.0


From 7d1669c296a8af21b3191c48b9417d6aeb635b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 10/13] fix: check the HTTP status of every page of a paginated
 response

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 8533292..8470a6f 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From a7dd02bffc57685819ae96449423dce080ab1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:49 +0000
Subject: [PATCH 11/13] fix: denote every missing multisig signature when an
 input is signed twice by one key

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index a73e282..c243e34 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -656,9 +656,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -674,6 +671,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From 8290d61735be7a67217918d4f2ebfb7d65423603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:29 +0000
Subject: [PATCH 12/13] fix: allow messages in prepared offline transactions

---
 bit/transaction.py | 4 ++++
 bit/wallet.py      | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c243e34..6a6362a 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -487,6 +487,10 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            # Messages of prepared offline transactions are hex-encoded:
+            if isinstance(dest, str):
+                dest = hex_to_bytes(dest)
+
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..a463471 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -854,7 +854,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1225,7 +1225,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1553,7 +1553,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From a60dd3888abd592bb3b2d72b54aae4305c3165d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:53 +0000
Subject: [PATCH 13/13] fix: convert amounts with many digits exactly

---
 bit/network/rates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..4aacf82 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,6 @@
 from collections import OrderedDict
 from decimal import ROUND_DOWN
+from fractions import Fraction
 from functools import wraps
 from time import time
 
@@ -592,7 +593,7 @@ def currency_to_satoshi(amount, currency):
     :rtype: ``int``
     """
     satoshis = EXCHANGE_RATES[currency]()
-    return int(satoshis * Decimal(amount))
+    return int(satoshis * Fraction(Decimal(amount)))
 
 
 class CachedRate:
@@ -618,7 +619,7 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return int(cached_rate.satoshis * Fraction(Decimal(amount)))
 
     return wrapper
 
-- 
2.43.0

