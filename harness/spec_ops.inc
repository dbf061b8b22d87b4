// generated by tools/mkspec.py from spirv.core.grammar.json 1.6 r1
static unsigned specShape(unsigned op)
{
	switch (op)
	{
	case 0: case 2: case 3: case 4: case 5: case 6: case 8: case 10: case 14: case 15: case 16: case 17:
	case 39: case 56: case 62: case 63: case 64: case 71: case 72: case 74: case 75: case 99: case 218: case 219:
	case 220: case 221: case 224: case 225: case 228: case 246: case 247: case 249: case 250: case 251: case 252: case 253:
	case 254: case 255: case 256: case 257: case 260: case 280: case 281: case 287: case 288: case 297: case 298: case 301:
	case 302: case 317: case 319: case 329: case 330: case 331: case 332: case 4416: case 4445: case 4446: case 4448: case 4449:
	case 4458: case 4473: case 4474: case 4475: case 4476: case 5075: case 5090: case 5249: case 5250: case 5251: case 5256: case 5259:
	case 5260: case 5261: case 5262: case 5263: case 5264: case 5266: case 5279: case 5280: case 5294: case 5295: case 5299: case 5335:
	case 5336: case 5337: case 5338: case 5339: case 5344: case 5360: case 5364: case 5365: case 5380: case 5397: case 5576: case 5578:
	case 5581: case 5630: case 5632: case 5633: case 5820: case 5887: case 6090: case 6091: case 6092: case 6142: case 6143:
		return 0;
	case 7: case 11: case 19: case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: case 28:
	case 29: case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 37: case 38: case 73: case 248:
	case 322: case 327: case 4456: case 4472: case 5281: case 5341: case 5358: case 5700: case 5701: case 5702: case 5703: case 5704:
	case 5705: case 5706: case 5707: case 5708: case 5709: case 5710: case 5711: case 5712: case 5911: case 5912: case 5913: case 6086:
		return 1;
	case 1: case 12: case 41: case 42: case 43: case 44: case 45: case 46: case 48: case 49: case 50: case 51:
	case 52: case 54: case 55: case 57: case 59: case 60: case 61: case 65: case 66: case 67: case 68: case 69:
	case 70: case 77: case 78: case 79: case 80: case 81: case 82: case 83: case 84: case 86: case 87: case 88:
	case 89: case 90: case 91: case 92: case 93: case 94: case 95: case 96: case 97: case 98: case 100: case 101:
	case 102: case 103: case 104: case 105: case 106: case 107: case 109: case 110: case 111: case 112: case 113: case 114:
	case 115: case 116: case 117: case 118: case 119: case 120: case 121: case 122: case 123: case 124: case 126: case 127:
	case 128: case 129: case 130: case 131: case 132: case 133: case 134: case 135: case 136: case 137: case 138: case 139:
	case 140: case 141: case 142: case 143: case 144: case 145: case 146: case 147: case 148: case 149: case 150: case 151:
	case 152: case 154: case 155: case 156: case 157: case 158: case 159: case 160: case 161: case 162: case 163: case 164:
	case 165: case 166: case 167: case 168: case 169: case 170: case 171: case 172: case 173: case 174: case 175: case 176:
	case 177: case 178: case 179: case 180: case 181: case 182: case 183: case 184: case 185: case 186: case 187: case 188:
	case 189: case 190: case 191: case 194: case 195: case 196: case 197: case 198: case 199: case 200: case 201: case 202:
	case 203: case 204: case 205: case 207: case 208: case 209: case 210: case 211: case 212: case 213: case 214: case 215:
	case 227: case 229: case 230: case 231: case 232: case 233: case 234: case 235: case 236: case 237: case 238: case 239:
	case 240: case 241: case 242: case 245: case 259: case 261: case 262: case 263: case 264: case 265: case 266: case 267:
	case 268: case 269: case 270: case 271: case 274: case 275: case 276: case 277: case 278: case 279: case 282: case 283:
	case 284: case 285: case 286: case 291: case 292: case 293: case 294: case 295: case 296: case 299: case 300: case 303:
	case 304: case 305: case 306: case 307: case 308: case 309: case 310: case 311: case 312: case 313: case 314: case 315:
	case 316: case 318: case 320: case 321: case 323: case 324: case 325: case 326: case 328: case 333: case 334: case 335:
	case 336: case 337: case 338: case 339: case 340: case 341: case 342: case 343: case 344: case 345: case 346: case 347:
	case 348: case 349: case 350: case 351: case 352: case 353: case 354: case 355: case 356: case 357: case 358: case 359:
	case 360: case 361: case 362: case 363: case 364: case 365: case 366: case 400: case 401: case 402: case 403: case 4160:
	case 4161: case 4162: case 4421: case 4422: case 4428: case 4429: case 4430: case 4431: case 4432: case 4447: case 4450: case 4451:
	case 4452: case 4453: case 4454: case 4455: case 4457: case 4459: case 4460: case 4477: case 4479: case 4480: case 4481: case 4482:
	case 4483: case 5000: case 5001: case 5002: case 5003: case 5004: case 5005: case 5006: case 5007: case 5011: case 5012: case 5056:
	case 5078: case 5252: case 5253: case 5254: case 5255: case 5257: case 5258: case 5265: case 5267: case 5268: case 5269: case 5270:
	case 5271: case 5272: case 5273: case 5274: case 5275: case 5276: case 5277: case 5278: case 5283: case 5296: case 5334: case 5340:
	case 5359: case 5361: case 5362: case 5381: case 5391: case 5392: case 5393: case 5394: case 5395: case 5396: case 5571: case 5572:
	case 5573: case 5574: case 5575: case 5577: case 5580: case 5585: case 5586: case 5587: case 5588: case 5589: case 5590: case 5591:
	case 5592: case 5593: case 5594: case 5595: case 5596: case 5597: case 5598: case 5600: case 5601: case 5609: case 5610: case 5611:
	case 5614: case 5615: case 5631: case 5699: case 5713: case 5714: case 5715: case 5716: case 5717: case 5718: case 5719: case 5720:
	case 5721: case 5722: case 5723: case 5724: case 5725: case 5726: case 5727: case 5728: case 5729: case 5730: case 5731: case 5732:
	case 5733: case 5734: case 5735: case 5736: case 5737: case 5738: case 5739: case 5740: case 5741: case 5742: case 5743: case 5744:
	case 5745: case 5746: case 5747: case 5748: case 5749: case 5750: case 5751: case 5752: case 5753: case 5754: case 5755: case 5756:
	case 5757: case 5758: case 5759: case 5760: case 5761: case 5762: case 5763: case 5764: case 5765: case 5766: case 5767: case 5768:
	case 5769: case 5770: case 5771: case 5772: case 5773: case 5774: case 5775: case 5776: case 5777: case 5778: case 5779: case 5780:
	case 5781: case 5782: case 5783: case 5784: case 5785: case 5786: case 5787: case 5788: case 5789: case 5790: case 5791: case 5792:
	case 5793: case 5794: case 5795: case 5796: case 5797: case 5798: case 5799: case 5800: case 5801: case 5802: case 5803: case 5804:
	case 5805: case 5806: case 5807: case 5808: case 5809: case 5810: case 5811: case 5812: case 5813: case 5814: case 5815: case 5816:
	case 5818: case 5819: case 5840: case 5841: case 5842: case 5843: case 5846: case 5847: case 5848: case 5849: case 5850: case 5851:
	case 5852: case 5853: case 5854: case 5855: case 5856: case 5857: case 5858: case 5859: case 5860: case 5861: case 5862: case 5863:
	case 5864: case 5865: case 5866: case 5867: case 5868: case 5869: case 5870: case 5871: case 5872: case 5873: case 5874: case 5875:
	case 5876: case 5877: case 5878: case 5879: case 5880: case 5881: case 5882: case 5923: case 5924: case 5925: case 5926: case 5927:
	case 5928: case 5929: case 5930: case 5931: case 5932: case 5933: case 5934: case 5938: case 5946: case 5947: case 5949: case 6016:
	case 6017: case 6018: case 6019: case 6020: case 6021: case 6022: case 6023: case 6024: case 6025: case 6026: case 6027: case 6028:
	case 6029: case 6030: case 6031: case 6032: case 6035: case 6116: case 6117: case 6401: case 6402: case 6403: case 6404: case 6405:
	case 6406: case 6407: case 6408:
		return 3;
	default: return 4;
	}
}
static unsigned specClass(unsigned op)
{
	switch (op)
	{
	case 19: case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: case 28: case 29: case 30:
	case 31: case 32: case 33: case 34: case 35: case 36: case 37: case 38: case 39: case 322: case 327: case 4456:
	case 4472: case 5281: case 5341: case 5358: case 5700: case 5701: case 5702: case 5703: case 5704: case 5705: case 5706: case 5707:
	case 5708: case 5709: case 5710: case 5711: case 5712: case 6086: case 6090:
		return 1;
	case 41: case 42: case 43: case 44: case 45: case 46: case 323: case 5600: case 6091:
		return 2;
	case 48: case 49: case 50: case 51: case 52: case 6092:
		return 4;
	case 249: case 250: case 251: case 252: case 253: case 254: case 255: case 4416: case 4448: case 4449: case 5294:
		return 8;
	default: return 0;
	}
}
static unsigned specExecMode(unsigned op)
{
	switch (op)
	{
	case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10: case 11:
	case 12: case 14: case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: case 23: case 24:
	case 25: case 26: case 27: case 28: case 29: case 30: case 31: case 33: case 34: case 35: case 36: case 4169:
	case 4170: case 4171: case 4421: case 4446: case 4459: case 4460: case 4461: case 4462: case 4463: case 5017: case 5027: case 5069:
	case 5079: case 5080: case 5081: case 5082: case 5083: case 5084: case 5269: case 5270: case 5289: case 5290: case 5298: case 5366:
	case 5367: case 5368: case 5369: case 5370: case 5371: case 5618: case 5620: case 5621: case 5622: case 5623: case 5893: case 5894:
	case 5895: case 5896: case 5903: case 6154: case 6160: case 6417:
		return 0;
	case 37: case 38: case 39: case 5071: case 5072: case 5073: case 5077:
		return 1;
	default: return 2;
	}
}
static unsigned specImplied0(unsigned op)
{
	switch (op)
	{
	case 1:
		return 0;
	case 2: case 3: case 21: case 25: case 27: case 28: case 29: case 30: case 31: case 32: case 33: case 35:
	case 37: case 40: case 41: case 42: case 45: case 48: case 49: case 50: case 51: case 52: case 53: case 55:
	case 56: case 4422: case 4427: case 4428: case 4439: case 4441: case 4471: case 4472: case 4479: case 5008: case 5009: case 5010:
	case 5013: case 5015: case 5016: case 5067: case 5265: case 5266: case 5283: case 5291: case 5301: case 5302: case 5336: case 5340:
	case 5341: case 5347: case 5353: case 5357: case 5363: case 5372: case 5373: case 5378: case 5379: case 5391: case 5584:
		return 1;
	case 12:
		return 11;
	case 14: case 15:
		return 13;
	case 60:
		return 17;
	case 58:
		return 19;
	case 24: case 54: case 57: case 5251:
		return 2;
	case 23:
		return 3;
	case 5249:
		return 35;
	case 36:
		return 37;
	case 6017:
		return 39;
	case 38:
		return 4;
	case 5303: case 5310:
		return 40;
	case 44:
		return 43;
	case 4429: case 4430:
		return 4428;
	case 4434:
		return 4433;
	case 5260:
		return 4439;
	case 4442:
		return 4441;
	case 4449:
		return 4448;
	case 4478: case 5381:
		return 4472;
	case 5383:
		return 4479;
	case 34:
		return 45;
	case 47: case 5304: case 5311:
		return 46;
	case 5305: case 5312:
		return 47;
	case 5255:
		return 5254;
	case 5259:
		return 5255;
	case 5306: case 5307: case 5308: case 5309:
		return 5301;
	case 5617:
		return 5619;
	case 5254:
		return 57;
	case 6161:
		return 5897;
	case 7: case 8: case 13: case 17: case 19: case 20: case 59: case 5837:
		return 6;
	case 62: case 63: case 64: case 65: case 66: case 67: case 68: case 6026:
		return 61;
	default: return 0x7fffffff;
	}
}
static unsigned specImplied1(unsigned op)
{
	switch (op)
	{
	case 4434:
		return 4433;
	case 4478: case 5381:
		return 4479;
	case 5310: case 5311: case 5312:
		return 5301;
	default: return 0x7fffffff;
	}
}
static unsigned specOperandType(unsigned op)
{
	switch (op)
	{
	case 109: case 110: case 115: case 127: case 129: case 131: case 133: case 136: case 140: case 141: case 156: case 157:
	case 158: case 159: case 160: case 161: case 162: case 163: case 180: case 181: case 182: case 183: case 184: case 185:
	case 186: case 187: case 188: case 189: case 190: case 191: case 207: case 208: case 209: case 210: case 211: case 212:
	case 213: case 214: case 215:
		return 1;
	case 128: case 130: case 132: case 170: case 171: case 194: case 195: case 196: case 197: case 198: case 199: case 200:
	case 201: case 204:
		return 2;
	case 111: case 114: case 126: case 135: case 138: case 139: case 152: case 173: case 175: case 177: case 179:
		return 3;
	case 112: case 113: case 120: case 134: case 137: case 149: case 150: case 151: case 172: case 174: case 176: case 178:
		return 4;
	case 154: case 155: case 164: case 165: case 166: case 167: case 168:
		return 5;
	default: return 0;
	}
}
#ifndef VC_SYMBOLIC
struct SpecOp { unsigned op; const char* name; const char* operands; };
static const SpecOp specOps[] = {
	{0, "OpNop", ""},
	{1, "OpUndef", "IdResultType1 IdResult1"},
	{2, "OpSourceContinued", "LiteralString1"},
	{3, "OpSource", "SourceLanguage1 LiteralInteger1 IdRef? LiteralString?"},
	{4, "OpSourceExtension", "LiteralString1"},
	{5, "OpName", "IdRef1 LiteralString1"},
	{6, "OpMemberName", "IdRef1 LiteralInteger1 LiteralString1"},
	{7, "OpString", "IdResult1 LiteralString1"},
	{8, "OpLine", "IdRef1 LiteralInteger1 LiteralInteger1"},
	{10, "OpExtension", "LiteralString1"},
	{11, "OpExtInstImport", "IdResult1 LiteralString1"},
	{12, "OpExtInst", "IdResultType1 IdResult1 IdRef1 LiteralExtInstInteger1 IdRef*"},
	{14, "OpMemoryModel", "AddressingModel1 MemoryModel1"},
	{15, "OpEntryPoint", "ExecutionModel1 IdRef1 LiteralString1 IdRef*"},
	{16, "OpExecutionMode", "IdRef1 ExecutionMode1"},
	{17, "OpCapability", "Capability1"},
	{19, "OpTypeVoid", "IdResult1"},
	{20, "OpTypeBool", "IdResult1"},
	{21, "OpTypeInt", "IdResult1 LiteralInteger1 LiteralInteger1"},
	{22, "OpTypeFloat", "IdResult1 LiteralInteger1"},
	{23, "OpTypeVector", "IdResult1 IdRef1 LiteralInteger1"},
	{24, "OpTypeMatrix", "IdResult1 IdRef1 LiteralInteger1"},
	{25, "OpTypeImage", "IdResult1 IdRef1 Dim1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 ImageFormat1 AccessQualifier?"},
	{26, "OpTypeSampler", "IdResult1"},
	{27, "OpTypeSampledImage", "IdResult1 IdRef1"},
	{28, "OpTypeArray", "IdResult1 IdRef1 IdRef1"},
	{29, "OpTypeRuntimeArray", "IdResult1 IdRef1"},
	{30, "OpTypeStruct", "IdResult1 IdRef*"},
	{31, "OpTypeOpaque", "IdResult1 LiteralString1"},
	{32, "OpTypePointer", "IdResult1 StorageClass1 IdRef1"},
	{33, "OpTypeFunction", "IdResult1 IdRef1 IdRef*"},
	{34, "OpTypeEvent", "IdResult1"},
	{35, "OpTypeDeviceEvent", "IdResult1"},
	{36, "OpTypeReserveId", "IdResult1"},
	{37, "OpTypeQueue", "IdResult1"},
	{38, "OpTypePipe", "IdResult1 AccessQualifier1"},
	{39, "OpTypeForwardPointer", "IdRef1 StorageClass1"},
	{41, "OpConstantTrue", "IdResultType1 IdResult1"},
	{42, "OpConstantFalse", "IdResultType1 IdResult1"},
	{43, "OpConstant", "IdResultType1 IdResult1 LiteralContextDependentNumber1"},
	{44, "OpConstantComposite", "IdResultType1 IdResult1 IdRef*"},
	{45, "OpConstantSampler", "IdResultType1 IdResult1 SamplerAddressingMode1 LiteralInteger1 SamplerFilterMode1"},
	{46, "OpConstantNull", "IdResultType1 IdResult1"},
	{48, "OpSpecConstantTrue", "IdResultType1 IdResult1"},
	{49, "OpSpecConstantFalse", "IdResultType1 IdResult1"},
	{50, "OpSpecConstant", "IdResultType1 IdResult1 LiteralContextDependentNumber1"},
	{51, "OpSpecConstantComposite", "IdResultType1 IdResult1 IdRef*"},
	{52, "OpSpecConstantOp", "IdResultType1 IdResult1 LiteralSpecConstantOpInteger1"},
	{54, "OpFunction", "IdResultType1 IdResult1 FunctionControl1 IdRef1"},
	{55, "OpFunctionParameter", "IdResultType1 IdResult1"},
	{56, "OpFunctionEnd", ""},
	{57, "OpFunctionCall", "IdResultType1 IdResult1 IdRef1 IdRef*"},
	{59, "OpVariable", "IdResultType1 IdResult1 StorageClass1 IdRef?"},
	{60, "OpImageTexelPointer", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{61, "OpLoad", "IdResultType1 IdResult1 IdRef1 MemoryAccess?"},
	{62, "OpStore", "IdRef1 IdRef1 MemoryAccess?"},
	{63, "OpCopyMemory", "IdRef1 IdRef1 MemoryAccess? MemoryAccess?"},
	{64, "OpCopyMemorySized", "IdRef1 IdRef1 IdRef1 MemoryAccess? MemoryAccess?"},
	{65, "OpAccessChain", "IdResultType1 IdResult1 IdRef1 IdRef*"},
	{66, "OpInBoundsAccessChain", "IdResultType1 IdResult1 IdRef1 IdRef*"},
	{67, "OpPtrAccessChain", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef*"},
	{68, "OpArrayLength", "IdResultType1 IdResult1 IdRef1 LiteralInteger1"},
	{69, "OpGenericPtrMemSemantics", "IdResultType1 IdResult1 IdRef1"},
	{70, "OpInBoundsPtrAccessChain", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef*"},
	{71, "OpDecorate", "IdRef1 Decoration1"},
	{72, "OpMemberDecorate", "IdRef1 LiteralInteger1 Decoration1"},
	{73, "OpDecorationGroup", "IdResult1"},
	{74, "OpGroupDecorate", "IdRef1 IdRef*"},
	{75, "OpGroupMemberDecorate", "IdRef1 PairIdRefLiteralInteger*"},
	{77, "OpVectorExtractDynamic", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{78, "OpVectorInsertDynamic", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{79, "OpVectorShuffle", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger*"},
	{80, "OpCompositeConstruct", "IdResultType1 IdResult1 IdRef*"},
	{81, "OpCompositeExtract", "IdResultType1 IdResult1 IdRef1 LiteralInteger*"},
	{82, "OpCompositeInsert", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger*"},
	{83, "OpCopyObject", "IdResultType1 IdResult1 IdRef1"},
	{84, "OpTranspose", "IdResultType1 IdResult1 IdRef1"},
	{86, "OpSampledImage", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{87, "OpImageSampleImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{88, "OpImageSampleExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands1"},
	{89, "OpImageSampleDrefImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{90, "OpImageSampleDrefExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands1"},
	{91, "OpImageSampleProjImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{92, "OpImageSampleProjExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands1"},
	{93, "OpImageSampleProjDrefImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{94, "OpImageSampleProjDrefExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands1"},
	{95, "OpImageFetch", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{96, "OpImageGather", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{97, "OpImageDrefGather", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{98, "OpImageRead", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{99, "OpImageWrite", "IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{100, "OpImage", "IdResultType1 IdResult1 IdRef1"},
	{101, "OpImageQueryFormat", "IdResultType1 IdResult1 IdRef1"},
	{102, "OpImageQueryOrder", "IdResultType1 IdResult1 IdRef1"},
	{103, "OpImageQuerySizeLod", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{104, "OpImageQuerySize", "IdResultType1 IdResult1 IdRef1"},
	{105, "OpImageQueryLod", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{106, "OpImageQueryLevels", "IdResultType1 IdResult1 IdRef1"},
	{107, "OpImageQuerySamples", "IdResultType1 IdResult1 IdRef1"},
	{109, "OpConvertFToU", "IdResultType1 IdResult1 IdRef1"},
	{110, "OpConvertFToS", "IdResultType1 IdResult1 IdRef1"},
	{111, "OpConvertSToF", "IdResultType1 IdResult1 IdRef1"},
	{112, "OpConvertUToF", "IdResultType1 IdResult1 IdRef1"},
	{113, "OpUConvert", "IdResultType1 IdResult1 IdRef1"},
	{114, "OpSConvert", "IdResultType1 IdResult1 IdRef1"},
	{115, "OpFConvert", "IdResultType1 IdResult1 IdRef1"},
	{116, "OpQuantizeToF16", "IdResultType1 IdResult1 IdRef1"},
	{117, "OpConvertPtrToU", "IdResultType1 IdResult1 IdRef1"},
	{118, "OpSatConvertSToU", "IdResultType1 IdResult1 IdRef1"},
	{119, "OpSatConvertUToS", "IdResultType1 IdResult1 IdRef1"},
	{120, "OpConvertUToPtr", "IdResultType1 IdResult1 IdRef1"},
	{121, "OpPtrCastToGeneric", "IdResultType1 IdResult1 IdRef1"},
	{122, "OpGenericCastToPtr", "IdResultType1 IdResult1 IdRef1"},
	{123, "OpGenericCastToPtrExplicit", "IdResultType1 IdResult1 IdRef1 StorageClass1"},
	{124, "OpBitcast", "IdResultType1 IdResult1 IdRef1"},
	{126, "OpSNegate", "IdResultType1 IdResult1 IdRef1"},
	{127, "OpFNegate", "IdResultType1 IdResult1 IdRef1"},
	{128, "OpIAdd", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{129, "OpFAdd", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{130, "OpISub", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{131, "OpFSub", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{132, "OpIMul", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{133, "OpFMul", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{134, "OpUDiv", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{135, "OpSDiv", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{136, "OpFDiv", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{137, "OpUMod", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{138, "OpSRem", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{139, "OpSMod", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{140, "OpFRem", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{141, "OpFMod", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{142, "OpVectorTimesScalar", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{143, "OpMatrixTimesScalar", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{144, "OpVectorTimesMatrix", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{145, "OpMatrixTimesVector", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{146, "OpMatrixTimesMatrix", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{147, "OpOuterProduct", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{148, "OpDot", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{149, "OpIAddCarry", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{150, "OpISubBorrow", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{151, "OpUMulExtended", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{152, "OpSMulExtended", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{154, "OpAny", "IdResultType1 IdResult1 IdRef1"},
	{155, "OpAll", "IdResultType1 IdResult1 IdRef1"},
	{156, "OpIsNan", "IdResultType1 IdResult1 IdRef1"},
	{157, "OpIsInf", "IdResultType1 IdResult1 IdRef1"},
	{158, "OpIsFinite", "IdResultType1 IdResult1 IdRef1"},
	{159, "OpIsNormal", "IdResultType1 IdResult1 IdRef1"},
	{160, "OpSignBitSet", "IdResultType1 IdResult1 IdRef1"},
	{161, "OpLessOrGreater", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{162, "OpOrdered", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{163, "OpUnordered", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{164, "OpLogicalEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{165, "OpLogicalNotEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{166, "OpLogicalOr", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{167, "OpLogicalAnd", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{168, "OpLogicalNot", "IdResultType1 IdResult1 IdRef1"},
	{169, "OpSelect", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{170, "OpIEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{171, "OpINotEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{172, "OpUGreaterThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{173, "OpSGreaterThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{174, "OpUGreaterThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{175, "OpSGreaterThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{176, "OpULessThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{177, "OpSLessThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{178, "OpULessThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{179, "OpSLessThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{180, "OpFOrdEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{181, "OpFUnordEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{182, "OpFOrdNotEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{183, "OpFUnordNotEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{184, "OpFOrdLessThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{185, "OpFUnordLessThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{186, "OpFOrdGreaterThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{187, "OpFUnordGreaterThan", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{188, "OpFOrdLessThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{189, "OpFUnordLessThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{190, "OpFOrdGreaterThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{191, "OpFUnordGreaterThanEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{194, "OpShiftRightLogical", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{195, "OpShiftRightArithmetic", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{196, "OpShiftLeftLogical", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{197, "OpBitwiseOr", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{198, "OpBitwiseXor", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{199, "OpBitwiseAnd", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{200, "OpNot", "IdResultType1 IdResult1 IdRef1"},
	{201, "OpBitFieldInsert", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{202, "OpBitFieldSExtract", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{203, "OpBitFieldUExtract", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{204, "OpBitReverse", "IdResultType1 IdResult1 IdRef1"},
	{205, "OpBitCount", "IdResultType1 IdResult1 IdRef1"},
	{207, "OpDPdx", "IdResultType1 IdResult1 IdRef1"},
	{208, "OpDPdy", "IdResultType1 IdResult1 IdRef1"},
	{209, "OpFwidth", "IdResultType1 IdResult1 IdRef1"},
	{210, "OpDPdxFine", "IdResultType1 IdResult1 IdRef1"},
	{211, "OpDPdyFine", "IdResultType1 IdResult1 IdRef1"},
	{212, "OpFwidthFine", "IdResultType1 IdResult1 IdRef1"},
	{213, "OpDPdxCoarse", "IdResultType1 IdResult1 IdRef1"},
	{214, "OpDPdyCoarse", "IdResultType1 IdResult1 IdRef1"},
	{215, "OpFwidthCoarse", "IdResultType1 IdResult1 IdRef1"},
	{218, "OpEmitVertex", ""},
	{219, "OpEndPrimitive", ""},
	{220, "OpEmitStreamVertex", "IdRef1"},
	{221, "OpEndStreamPrimitive", "IdRef1"},
	{224, "OpControlBarrier", "IdScope1 IdScope1 IdMemorySemantics1"},
	{225, "OpMemoryBarrier", "IdScope1 IdMemorySemantics1"},
	{227, "OpAtomicLoad", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1"},
	{228, "OpAtomicStore", "IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{229, "OpAtomicExchange", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{230, "OpAtomicCompareExchange", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdMemorySemantics1 IdRef1 IdRef1"},
	{231, "OpAtomicCompareExchangeWeak", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdMemorySemantics1 IdRef1 IdRef1"},
	{232, "OpAtomicIIncrement", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1"},
	{233, "OpAtomicIDecrement", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1"},
	{234, "OpAtomicIAdd", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{235, "OpAtomicISub", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{236, "OpAtomicSMin", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{237, "OpAtomicUMin", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{238, "OpAtomicSMax", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{239, "OpAtomicUMax", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{240, "OpAtomicAnd", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{241, "OpAtomicOr", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{242, "OpAtomicXor", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{245, "OpPhi", "IdResultType1 IdResult1 PairIdRefIdRef*"},
	{246, "OpLoopMerge", "IdRef1 IdRef1 LoopControl1"},
	{247, "OpSelectionMerge", "IdRef1 SelectionControl1"},
	{248, "OpLabel", "IdResult1"},
	{249, "OpBranch", "IdRef1"},
	{250, "OpBranchConditional", "IdRef1 IdRef1 IdRef1 LiteralInteger*"},
	{251, "OpSwitch", "IdRef1 IdRef1 PairLiteralIntegerIdRef*"},
	{252, "OpKill", ""},
	{253, "OpReturn", ""},
	{254, "OpReturnValue", "IdRef1"},
	{255, "OpUnreachable", ""},
	{256, "OpLifetimeStart", "IdRef1 LiteralInteger1"},
	{257, "OpLifetimeStop", "IdRef1 LiteralInteger1"},
	{259, "OpGroupAsyncCopy", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{260, "OpGroupWaitEvents", "IdScope1 IdRef1 IdRef1"},
	{261, "OpGroupAll", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{262, "OpGroupAny", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{263, "OpGroupBroadcast", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{264, "OpGroupIAdd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{265, "OpGroupFAdd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{266, "OpGroupFMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{267, "OpGroupUMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{268, "OpGroupSMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{269, "OpGroupFMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{270, "OpGroupUMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{271, "OpGroupSMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{274, "OpReadPipe", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{275, "OpWritePipe", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{276, "OpReservedReadPipe", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{277, "OpReservedWritePipe", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{278, "OpReserveReadPipePackets", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{279, "OpReserveWritePipePackets", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{280, "OpCommitReadPipe", "IdRef1 IdRef1 IdRef1 IdRef1"},
	{281, "OpCommitWritePipe", "IdRef1 IdRef1 IdRef1 IdRef1"},
	{282, "OpIsValidReserveId", "IdResultType1 IdResult1 IdRef1"},
	{283, "OpGetNumPipePackets", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{284, "OpGetMaxPipePackets", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{285, "OpGroupReserveReadPipePackets", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{286, "OpGroupReserveWritePipePackets", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{287, "OpGroupCommitReadPipe", "IdScope1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{288, "OpGroupCommitWritePipe", "IdScope1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{291, "OpEnqueueMarker", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{292, "OpEnqueueKernel", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef*"},
	{293, "OpGetKernelNDrangeSubGroupCount", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{294, "OpGetKernelNDrangeMaxSubGroupSize", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{295, "OpGetKernelWorkGroupSize", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{296, "OpGetKernelPreferredWorkGroupSizeMultiple", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{297, "OpRetainEvent", "IdRef1"},
	{298, "OpReleaseEvent", "IdRef1"},
	{299, "OpCreateUserEvent", "IdResultType1 IdResult1"},
	{300, "OpIsValidEvent", "IdResultType1 IdResult1 IdRef1"},
	{301, "OpSetUserEventStatus", "IdRef1 IdRef1"},
	{302, "OpCaptureEventProfilingInfo", "IdRef1 IdRef1 IdRef1"},
	{303, "OpGetDefaultQueue", "IdResultType1 IdResult1"},
	{304, "OpBuildNDRange", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{305, "OpImageSparseSampleImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{306, "OpImageSparseSampleExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands1"},
	{307, "OpImageSparseSampleDrefImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{308, "OpImageSparseSampleDrefExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands1"},
	{309, "OpImageSparseSampleProjImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{310, "OpImageSparseSampleProjExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands1"},
	{311, "OpImageSparseSampleProjDrefImplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{312, "OpImageSparseSampleProjDrefExplicitLod", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands1"},
	{313, "OpImageSparseFetch", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{314, "OpImageSparseGather", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{315, "OpImageSparseDrefGather", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{316, "OpImageSparseTexelsResident", "IdResultType1 IdResult1 IdRef1"},
	{317, "OpNoLine", ""},
	{318, "OpAtomicFlagTestAndSet", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1"},
	{319, "OpAtomicFlagClear", "IdRef1 IdScope1 IdMemorySemantics1"},
	{320, "OpImageSparseRead", "IdResultType1 IdResult1 IdRef1 IdRef1 ImageOperands?"},
	{321, "OpSizeOf", "IdResultType1 IdResult1 IdRef1"},
	{322, "OpTypePipeStorage", "IdResult1"},
	{323, "OpConstantPipeStorage", "IdResultType1 IdResult1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{324, "OpCreatePipeFromPipeStorage", "IdResultType1 IdResult1 IdRef1"},
	{325, "OpGetKernelLocalSizeForSubgroupCount", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{326, "OpGetKernelMaxNumSubgroups", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{327, "OpTypeNamedBarrier", "IdResult1"},
	{328, "OpNamedBarrierInitialize", "IdResultType1 IdResult1 IdRef1"},
	{329, "OpMemoryNamedBarrier", "IdRef1 IdScope1 IdMemorySemantics1"},
	{330, "OpModuleProcessed", "LiteralString1"},
	{331, "OpExecutionModeId", "IdRef1 ExecutionMode1"},
	{332, "OpDecorateId", "IdRef1 Decoration1"},
	{333, "OpGroupNonUniformElect", "IdResultType1 IdResult1 IdScope1"},
	{334, "OpGroupNonUniformAll", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{335, "OpGroupNonUniformAny", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{336, "OpGroupNonUniformAllEqual", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{337, "OpGroupNonUniformBroadcast", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{338, "OpGroupNonUniformBroadcastFirst", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{339, "OpGroupNonUniformBallot", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{340, "OpGroupNonUniformInverseBallot", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{341, "OpGroupNonUniformBallotBitExtract", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{342, "OpGroupNonUniformBallotBitCount", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{343, "OpGroupNonUniformBallotFindLSB", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{344, "OpGroupNonUniformBallotFindMSB", "IdResultType1 IdResult1 IdScope1 IdRef1"},
	{345, "OpGroupNonUniformShuffle", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{346, "OpGroupNonUniformShuffleXor", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{347, "OpGroupNonUniformShuffleUp", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{348, "OpGroupNonUniformShuffleDown", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{349, "OpGroupNonUniformIAdd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{350, "OpGroupNonUniformFAdd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{351, "OpGroupNonUniformIMul", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{352, "OpGroupNonUniformFMul", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{353, "OpGroupNonUniformSMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{354, "OpGroupNonUniformUMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{355, "OpGroupNonUniformFMin", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{356, "OpGroupNonUniformSMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{357, "OpGroupNonUniformUMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{358, "OpGroupNonUniformFMax", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{359, "OpGroupNonUniformBitwiseAnd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{360, "OpGroupNonUniformBitwiseOr", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{361, "OpGroupNonUniformBitwiseXor", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{362, "OpGroupNonUniformLogicalAnd", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{363, "OpGroupNonUniformLogicalOr", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{364, "OpGroupNonUniformLogicalXor", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1 IdRef?"},
	{365, "OpGroupNonUniformQuadBroadcast", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{366, "OpGroupNonUniformQuadSwap", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1"},
	{400, "OpCopyLogical", "IdResultType1 IdResult1 IdRef1"},
	{401, "OpPtrEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{402, "OpPtrNotEqual", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{403, "OpPtrDiff", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{4160, "OpColorAttachmentReadEXT", "IdResultType1 IdResult1 IdRef1 IdRef?"},
	{4161, "OpDepthAttachmentReadEXT", "IdResultType1 IdResult1 IdRef?"},
	{4162, "OpStencilAttachmentReadEXT", "IdResultType1 IdResult1 IdRef?"},
	{4416, "OpTerminateInvocation", ""},
	{4421, "OpSubgroupBallotKHR", "IdResultType1 IdResult1 IdRef1"},
	{4422, "OpSubgroupFirstInvocationKHR", "IdResultType1 IdResult1 IdRef1"},
	{4428, "OpSubgroupAllKHR", "IdResultType1 IdResult1 IdRef1"},
	{4429, "OpSubgroupAnyKHR", "IdResultType1 IdResult1 IdRef1"},
	{4430, "OpSubgroupAllEqualKHR", "IdResultType1 IdResult1 IdRef1"},
	{4431, "OpGroupNonUniformRotateKHR", "IdResultType1 IdResult1 IdScope1 IdRef1 IdRef1 IdRef?"},
	{4432, "OpSubgroupReadInvocationKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{4445, "OpTraceRayKHR", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{4446, "OpExecuteCallableKHR", "IdRef1 IdRef1"},
	{4447, "OpConvertUToAccelerationStructureKHR", "IdResultType1 IdResult1 IdRef1"},
	{4448, "OpIgnoreIntersectionKHR", ""},
	{4449, "OpTerminateRayKHR", ""},
	{4450, "OpSDot", "IdResultType1 IdResult1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4451, "OpUDot", "IdResultType1 IdResult1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4452, "OpSUDot", "IdResultType1 IdResult1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4453, "OpSDotAccSat", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4454, "OpUDotAccSat", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4455, "OpSUDotAccSat", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 PackedVectorFormat?"},
	{4456, "OpTypeCooperativeMatrixKHR", "IdResult1 IdRef1 IdScope1 IdRef1 IdRef1 IdRef1"},
	{4457, "OpCooperativeMatrixLoadKHR", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef? MemoryAccess?"},
	{4458, "OpCooperativeMatrixStoreKHR", "IdRef1 IdRef1 IdRef1 IdRef? MemoryAccess?"},
	{4459, "OpCooperativeMatrixMulAddKHR", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 CooperativeMatrixOperands?"},
	{4460, "OpCooperativeMatrixLengthKHR", "IdResultType1 IdResult1 IdRef1"},
	{4472, "OpTypeRayQueryKHR", "IdResult1"},
	{4473, "OpRayQueryInitializeKHR", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{4474, "OpRayQueryTerminateKHR", "IdRef1"},
	{4475, "OpRayQueryGenerateIntersectionKHR", "IdRef1 IdRef1"},
	{4476, "OpRayQueryConfirmIntersectionKHR", "IdRef1"},
	{4477, "OpRayQueryProceedKHR", "IdResultType1 IdResult1 IdRef1"},
	{4479, "OpRayQueryGetIntersectionTypeKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{4480, "OpImageSampleWeightedQCOM", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{4481, "OpImageBoxFilterQCOM", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{4482, "OpImageBlockMatchSSDQCOM", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{4483, "OpImageBlockMatchSADQCOM", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5000, "OpGroupIAddNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5001, "OpGroupFAddNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5002, "OpGroupFMinNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5003, "OpGroupUMinNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5004, "OpGroupSMinNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5005, "OpGroupFMaxNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5006, "OpGroupUMaxNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5007, "OpGroupSMaxNonUniformAMD", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{5011, "OpFragmentMaskFetchAMD", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5012, "OpFragmentFetchAMD", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5056, "OpReadClockKHR", "IdResultType1 IdResult1 IdScope1"},
	{5075, "OpFinalizeNodePayloadsAMDX", "IdRef1"},
	{5078, "OpFinishWritingNodePayloadAMDX", "IdResultType1 IdResult1 IdRef1"},
	{5090, "OpInitializeNodePayloadsAMDX", "IdRef1 IdScope1 IdRef1 IdRef1"},
	{5249, "OpHitObjectRecordHitMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5250, "OpHitObjectRecordHitWithIndexMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5251, "OpHitObjectRecordMissMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5252, "OpHitObjectGetWorldToObjectNV", "IdResultType1 IdResult1 IdRef1"},
	{5253, "OpHitObjectGetObjectToWorldNV", "IdResultType1 IdResult1 IdRef1"},
	{5254, "OpHitObjectGetObjectRayDirectionNV", "IdResultType1 IdResult1 IdRef1"},
	{5255, "OpHitObjectGetObjectRayOriginNV", "IdResultType1 IdResult1 IdRef1"},
	{5256, "OpHitObjectTraceRayMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5257, "OpHitObjectGetShaderRecordBufferHandleNV", "IdResultType1 IdResult1 IdRef1"},
	{5258, "OpHitObjectGetShaderBindingTableRecordIndexNV", "IdResultType1 IdResult1 IdRef1"},
	{5259, "OpHitObjectRecordEmptyNV", "IdRef1"},
	{5260, "OpHitObjectTraceRayNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5261, "OpHitObjectRecordHitNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5262, "OpHitObjectRecordHitWithIndexNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5263, "OpHitObjectRecordMissNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5264, "OpHitObjectExecuteShaderNV", "IdRef1 IdRef1"},
	{5265, "OpHitObjectGetCurrentTimeNV", "IdResultType1 IdResult1 IdRef1"},
	{5266, "OpHitObjectGetAttributesNV", "IdRef1 IdRef1"},
	{5267, "OpHitObjectGetHitKindNV", "IdResultType1 IdResult1 IdRef1"},
	{5268, "OpHitObjectGetPrimitiveIndexNV", "IdResultType1 IdResult1 IdRef1"},
	{5269, "OpHitObjectGetGeometryIndexNV", "IdResultType1 IdResult1 IdRef1"},
	{5270, "OpHitObjectGetInstanceIdNV", "IdResultType1 IdResult1 IdRef1"},
	{5271, "OpHitObjectGetInstanceCustomIndexNV", "IdResultType1 IdResult1 IdRef1"},
	{5272, "OpHitObjectGetWorldRayDirectionNV", "IdResultType1 IdResult1 IdRef1"},
	{5273, "OpHitObjectGetWorldRayOriginNV", "IdResultType1 IdResult1 IdRef1"},
	{5274, "OpHitObjectGetRayTMaxNV", "IdResultType1 IdResult1 IdRef1"},
	{5275, "OpHitObjectGetRayTMinNV", "IdResultType1 IdResult1 IdRef1"},
	{5276, "OpHitObjectIsEmptyNV", "IdResultType1 IdResult1 IdRef1"},
	{5277, "OpHitObjectIsHitNV", "IdResultType1 IdResult1 IdRef1"},
	{5278, "OpHitObjectIsMissNV", "IdResultType1 IdResult1 IdRef1"},
	{5279, "OpReorderThreadWithHitObjectNV", "IdRef1 IdRef? IdRef?"},
	{5280, "OpReorderThreadWithHintNV", "IdRef1 IdRef1"},
	{5281, "OpTypeHitObjectNV", "IdResult1"},
	{5283, "OpImageSampleFootprintNV", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 ImageOperands?"},
	{5294, "OpEmitMeshTasksEXT", "IdRef1 IdRef1 IdRef1 IdRef?"},
	{5295, "OpSetMeshOutputsEXT", "IdRef1 IdRef1"},
	{5296, "OpGroupNonUniformPartitionNV", "IdResultType1 IdResult1 IdRef1"},
	{5299, "OpWritePackedPrimitiveIndices4x8NV", "IdRef1 IdRef1"},
	{5334, "OpReportIntersectionNV", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5335, "OpIgnoreIntersectionNV", ""},
	{5336, "OpTerminateRayNV", ""},
	{5337, "OpTraceNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5338, "OpTraceMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5339, "OpTraceRayMotionNV", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5340, "OpRayQueryGetIntersectionTriangleVertexPositionsKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5341, "OpTypeAccelerationStructureNV", "IdResult1"},
	{5344, "OpExecuteCallableNV", "IdRef1 IdRef1"},
	{5358, "OpTypeCooperativeMatrixNV", "IdResult1 IdRef1 IdScope1 IdRef1 IdRef1"},
	{5359, "OpCooperativeMatrixLoadNV", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 MemoryAccess?"},
	{5360, "OpCooperativeMatrixStoreNV", "IdRef1 IdRef1 IdRef1 IdRef1 MemoryAccess?"},
	{5361, "OpCooperativeMatrixMulAddNV", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5362, "OpCooperativeMatrixLengthNV", "IdResultType1 IdResult1 IdRef1"},
	{5364, "OpBeginInvocationInterlockEXT", ""},
	{5365, "OpEndInvocationInterlockEXT", ""},
	{5380, "OpDemoteToHelperInvocation", ""},
	{5381, "OpIsHelperInvocationEXT", "IdResultType1 IdResult1"},
	{5391, "OpConvertUToImageNV", "IdResultType1 IdResult1 IdRef1"},
	{5392, "OpConvertUToSamplerNV", "IdResultType1 IdResult1 IdRef1"},
	{5393, "OpConvertImageToUNV", "IdResultType1 IdResult1 IdRef1"},
	{5394, "OpConvertSamplerToUNV", "IdResultType1 IdResult1 IdRef1"},
	{5395, "OpConvertUToSampledImageNV", "IdResultType1 IdResult1 IdRef1"},
	{5396, "OpConvertSampledImageToUNV", "IdResultType1 IdResult1 IdRef1"},
	{5397, "OpSamplerImageAddressingModeNV", "LiteralInteger1"},
	{5571, "OpSubgroupShuffleINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5572, "OpSubgroupShuffleDownINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5573, "OpSubgroupShuffleUpINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5574, "OpSubgroupShuffleXorINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5575, "OpSubgroupBlockReadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5576, "OpSubgroupBlockWriteINTEL", "IdRef1 IdRef1"},
	{5577, "OpSubgroupImageBlockReadINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5578, "OpSubgroupImageBlockWriteINTEL", "IdRef1 IdRef1 IdRef1"},
	{5580, "OpSubgroupImageMediaBlockReadINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5581, "OpSubgroupImageMediaBlockWriteINTEL", "IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5585, "OpUCountLeadingZerosINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5586, "OpUCountTrailingZerosINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5587, "OpAbsISubINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5588, "OpAbsUSubINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5589, "OpIAddSatINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5590, "OpUAddSatINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5591, "OpIAverageINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5592, "OpUAverageINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5593, "OpIAverageRoundedINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5594, "OpUAverageRoundedINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5595, "OpISubSatINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5596, "OpUSubSatINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5597, "OpIMul32x16INTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5598, "OpUMul32x16INTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5600, "OpConstantFunctionPointerINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5601, "OpFunctionPointerCallINTEL", "IdResultType1 IdResult1 IdRef*"},
	{5609, "OpAsmTargetINTEL", "IdResultType1 IdResult1 LiteralString1"},
	{5610, "OpAsmINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralString1 LiteralString1"},
	{5611, "OpAsmCallINTEL", "IdResultType1 IdResult1 IdRef1 IdRef*"},
	{5614, "OpAtomicFMinEXT", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{5615, "OpAtomicFMaxEXT", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{5630, "OpAssumeTrueKHR", "IdRef1"},
	{5631, "OpExpectKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5632, "OpDecorateString", "IdRef1 Decoration1"},
	{5633, "OpMemberDecorateString", "IdRef1 LiteralInteger1 Decoration1"},
	{5699, "OpVmeImageINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5700, "OpTypeVmeImageINTEL", "IdResult1 IdRef1"},
	{5701, "OpTypeAvcImePayloadINTEL", "IdResult1"},
	{5702, "OpTypeAvcRefPayloadINTEL", "IdResult1"},
	{5703, "OpTypeAvcSicPayloadINTEL", "IdResult1"},
	{5704, "OpTypeAvcMcePayloadINTEL", "IdResult1"},
	{5705, "OpTypeAvcMceResultINTEL", "IdResult1"},
	{5706, "OpTypeAvcImeResultINTEL", "IdResult1"},
	{5707, "OpTypeAvcImeResultSingleReferenceStreamoutINTEL", "IdResult1"},
	{5708, "OpTypeAvcImeResultDualReferenceStreamoutINTEL", "IdResult1"},
	{5709, "OpTypeAvcImeSingleReferenceStreaminINTEL", "IdResult1"},
	{5710, "OpTypeAvcImeDualReferenceStreaminINTEL", "IdResult1"},
	{5711, "OpTypeAvcRefResultINTEL", "IdResult1"},
	{5712, "OpTypeAvcSicResultINTEL", "IdResult1"},
	{5713, "OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5714, "OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5715, "OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5716, "OpSubgroupAvcMceSetInterShapePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5717, "OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5718, "OpSubgroupAvcMceSetInterDirectionPenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5719, "OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5720, "OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5721, "OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL", "IdResultType1 IdResult1"},
	{5722, "OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL", "IdResultType1 IdResult1"},
	{5723, "OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL", "IdResultType1 IdResult1"},
	{5724, "OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5725, "OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5726, "OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL", "IdResultType1 IdResult1"},
	{5727, "OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL", "IdResultType1 IdResult1"},
	{5728, "OpSubgroupAvcMceSetAcOnlyHaarINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5729, "OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5730, "OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5731, "OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5732, "OpSubgroupAvcMceConvertToImePayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5733, "OpSubgroupAvcMceConvertToImeResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5734, "OpSubgroupAvcMceConvertToRefPayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5735, "OpSubgroupAvcMceConvertToRefResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5736, "OpSubgroupAvcMceConvertToSicPayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5737, "OpSubgroupAvcMceConvertToSicResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5738, "OpSubgroupAvcMceGetMotionVectorsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5739, "OpSubgroupAvcMceGetInterDistortionsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5740, "OpSubgroupAvcMceGetBestInterDistortionsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5741, "OpSubgroupAvcMceGetInterMajorShapeINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5742, "OpSubgroupAvcMceGetInterMinorShapeINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5743, "OpSubgroupAvcMceGetInterDirectionsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5744, "OpSubgroupAvcMceGetInterMotionVectorCountINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5745, "OpSubgroupAvcMceGetInterReferenceIdsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5746, "OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5747, "OpSubgroupAvcImeInitializeINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5748, "OpSubgroupAvcImeSetSingleReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5749, "OpSubgroupAvcImeSetDualReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5750, "OpSubgroupAvcImeRefWindowSizeINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5751, "OpSubgroupAvcImeAdjustRefOffsetINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5752, "OpSubgroupAvcImeConvertToMcePayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5753, "OpSubgroupAvcImeSetMaxMotionVectorCountINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5754, "OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5755, "OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5756, "OpSubgroupAvcImeSetWeightedSadINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5757, "OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5758, "OpSubgroupAvcImeEvaluateWithDualReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5759, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5760, "OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5761, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5762, "OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5763, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5764, "OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5765, "OpSubgroupAvcImeConvertToMceResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5766, "OpSubgroupAvcImeGetSingleReferenceStreaminINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5767, "OpSubgroupAvcImeGetDualReferenceStreaminINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5768, "OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5769, "OpSubgroupAvcImeStripDualReferenceStreamoutINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5770, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5771, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5772, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5773, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5774, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5775, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5776, "OpSubgroupAvcImeGetBorderReachedINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5777, "OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5778, "OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5779, "OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5780, "OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5781, "OpSubgroupAvcFmeInitializeINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5782, "OpSubgroupAvcBmeInitializeINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5783, "OpSubgroupAvcRefConvertToMcePayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5784, "OpSubgroupAvcRefSetBidirectionalMixDisableINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5785, "OpSubgroupAvcRefSetBilinearFilterEnableINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5786, "OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5787, "OpSubgroupAvcRefEvaluateWithDualReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5788, "OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5789, "OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5790, "OpSubgroupAvcRefConvertToMceResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5791, "OpSubgroupAvcSicInitializeINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5792, "OpSubgroupAvcSicConfigureSkcINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5793, "OpSubgroupAvcSicConfigureIpeLumaINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5794, "OpSubgroupAvcSicConfigureIpeLumaChromaINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5795, "OpSubgroupAvcSicGetMotionVectorMaskINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5796, "OpSubgroupAvcSicConvertToMcePayloadINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5797, "OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5798, "OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5799, "OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5800, "OpSubgroupAvcSicSetBilinearFilterEnableINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5801, "OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5802, "OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5803, "OpSubgroupAvcSicEvaluateIpeINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5804, "OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5805, "OpSubgroupAvcSicEvaluateWithDualReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5806, "OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1"},
	{5807, "OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 IdRef1 IdRef1"},
	{5808, "OpSubgroupAvcSicConvertToMceResultINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5809, "OpSubgroupAvcSicGetIpeLumaShapeINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5810, "OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5811, "OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5812, "OpSubgroupAvcSicGetPackedIpeLumaModesINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5813, "OpSubgroupAvcSicGetIpeChromaModeINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5814, "OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5815, "OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5816, "OpSubgroupAvcSicGetInterRawSadsINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5818, "OpVariableLengthArrayINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5819, "OpSaveMemoryINTEL", "IdResultType1 IdResult1"},
	{5820, "OpRestoreMemoryINTEL", "IdRef1"},
	{5840, "OpArbitraryFloatSinCosPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5841, "OpArbitraryFloatCastINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5842, "OpArbitraryFloatCastFromIntINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5843, "OpArbitraryFloatCastToIntINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5846, "OpArbitraryFloatAddINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5847, "OpArbitraryFloatSubINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5848, "OpArbitraryFloatMulINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5849, "OpArbitraryFloatDivINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5850, "OpArbitraryFloatGTINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1"},
	{5851, "OpArbitraryFloatGEINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1"},
	{5852, "OpArbitraryFloatLTINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1"},
	{5853, "OpArbitraryFloatLEINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1"},
	{5854, "OpArbitraryFloatEQINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1"},
	{5855, "OpArbitraryFloatRecipINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5856, "OpArbitraryFloatRSqrtINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5857, "OpArbitraryFloatCbrtINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5858, "OpArbitraryFloatHypotINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5859, "OpArbitraryFloatSqrtINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5860, "OpArbitraryFloatLogINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5861, "OpArbitraryFloatLog2INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5862, "OpArbitraryFloatLog10INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5863, "OpArbitraryFloatLog1pINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5864, "OpArbitraryFloatExpINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5865, "OpArbitraryFloatExp2INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5866, "OpArbitraryFloatExp10INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5867, "OpArbitraryFloatExpm1INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5868, "OpArbitraryFloatSinINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5869, "OpArbitraryFloatCosINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5870, "OpArbitraryFloatSinCosINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5871, "OpArbitraryFloatSinPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5872, "OpArbitraryFloatCosPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5873, "OpArbitraryFloatASinINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5874, "OpArbitraryFloatASinPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5875, "OpArbitraryFloatACosINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5876, "OpArbitraryFloatACosPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5877, "OpArbitraryFloatATanINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5878, "OpArbitraryFloatATanPiINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5879, "OpArbitraryFloatATan2INTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5880, "OpArbitraryFloatPowINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5881, "OpArbitraryFloatPowRINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5882, "OpArbitraryFloatPowNINTEL", "IdResultType1 IdResult1 IdRef1 LiteralInteger1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5887, "OpLoopControlINTEL", "LiteralInteger*"},
	{5911, "OpAliasDomainDeclINTEL", "IdResult1 IdRef?"},
	{5912, "OpAliasScopeDeclINTEL", "IdResult1 IdRef1 IdRef?"},
	{5913, "OpAliasScopeListDeclINTEL", "IdResult1 IdRef*"},
	{5923, "OpFixedSqrtINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5924, "OpFixedRecipINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5925, "OpFixedRsqrtINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5926, "OpFixedSinINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5927, "OpFixedCosINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5928, "OpFixedSinCosINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5929, "OpFixedSinPiINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5930, "OpFixedCosPiINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5931, "OpFixedSinCosPiINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5932, "OpFixedLogINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5933, "OpFixedExpINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{5934, "OpPtrCastToCrossWorkgroupINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5938, "OpCrossWorkgroupCastToPtrINTEL", "IdResultType1 IdResult1 IdRef1"},
	{5946, "OpReadPipeBlockingINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5947, "OpWritePipeBlockingINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{5949, "OpFPGARegINTEL", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6016, "OpRayQueryGetRayTMinKHR", "IdResultType1 IdResult1 IdRef1"},
	{6017, "OpRayQueryGetRayFlagsKHR", "IdResultType1 IdResult1 IdRef1"},
	{6018, "OpRayQueryGetIntersectionTKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6019, "OpRayQueryGetIntersectionInstanceCustomIndexKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6020, "OpRayQueryGetIntersectionInstanceIdKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6021, "OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6022, "OpRayQueryGetIntersectionGeometryIndexKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6023, "OpRayQueryGetIntersectionPrimitiveIndexKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6024, "OpRayQueryGetIntersectionBarycentricsKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6025, "OpRayQueryGetIntersectionFrontFaceKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6026, "OpRayQueryGetIntersectionCandidateAABBOpaqueKHR", "IdResultType1 IdResult1 IdRef1"},
	{6027, "OpRayQueryGetIntersectionObjectRayDirectionKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6028, "OpRayQueryGetIntersectionObjectRayOriginKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6029, "OpRayQueryGetWorldRayDirectionKHR", "IdResultType1 IdResult1 IdRef1"},
	{6030, "OpRayQueryGetWorldRayOriginKHR", "IdResultType1 IdResult1 IdRef1"},
	{6031, "OpRayQueryGetIntersectionObjectToWorldKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6032, "OpRayQueryGetIntersectionWorldToObjectKHR", "IdResultType1 IdResult1 IdRef1 IdRef1"},
	{6035, "OpAtomicFAddEXT", "IdResultType1 IdResult1 IdRef1 IdScope1 IdMemorySemantics1 IdRef1"},
	{6086, "OpTypeBufferSurfaceINTEL", "IdResult1 AccessQualifier1"},
	{6090, "OpTypeStructContinuedINTEL", "IdRef*"},
	{6091, "OpConstantCompositeContinuedINTEL", "IdRef*"},
	{6092, "OpSpecConstantCompositeContinuedINTEL", "IdRef*"},
	{6116, "OpConvertFToBF16INTEL", "IdResultType1 IdResult1 IdRef1"},
	{6117, "OpConvertBF16ToFINTEL", "IdResultType1 IdResult1 IdRef1"},
	{6142, "OpControlBarrierArriveINTEL", "IdScope1 IdScope1 IdMemorySemantics1"},
	{6143, "OpControlBarrierWaitINTEL", "IdScope1 IdScope1 IdMemorySemantics1"},
	{6401, "OpGroupIMulKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6402, "OpGroupFMulKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6403, "OpGroupBitwiseAndKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6404, "OpGroupBitwiseOrKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6405, "OpGroupBitwiseXorKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6406, "OpGroupLogicalAndKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6407, "OpGroupLogicalOrKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
	{6408, "OpGroupLogicalXorKHR", "IdResultType1 IdResult1 IdScope1 GroupOperation1 IdRef1"},
};
struct SpecParam { const char* kind; unsigned value; const char* params; };
static const SpecParam specParams[] = {
	{"ImageOperands", 1u, "IdRef1"},
	{"ImageOperands", 2u, "IdRef1"},
	{"ImageOperands", 4u, "IdRef1 IdRef1"},
	{"ImageOperands", 8u, "IdRef1"},
	{"ImageOperands", 16u, "IdRef1"},
	{"ImageOperands", 32u, "IdRef1"},
	{"ImageOperands", 64u, "IdRef1"},
	{"ImageOperands", 128u, "IdRef1"},
	{"ImageOperands", 256u, "IdScope1"},
	{"ImageOperands", 512u, "IdScope1"},
	{"ImageOperands", 65536u, "IdRef1"},
	{"LoopControl", 8u, "LiteralInteger1"},
	{"LoopControl", 16u, "LiteralInteger1"},
	{"LoopControl", 32u, "LiteralInteger1"},
	{"LoopControl", 64u, "LiteralInteger1"},
	{"LoopControl", 128u, "LiteralInteger1"},
	{"LoopControl", 256u, "LiteralInteger1"},
	{"LoopControl", 65536u, "LiteralInteger1"},
	{"LoopControl", 131072u, "LiteralInteger1"},
	{"LoopControl", 262144u, "LiteralInteger1"},
	{"LoopControl", 524288u, "LiteralInteger1"},
	{"LoopControl", 1048576u, "LiteralInteger1"},
	{"LoopControl", 2097152u, "LiteralInteger1"},
	{"LoopControl", 4194304u, "LiteralInteger1"},
	{"LoopControl", 16777216u, "LiteralInteger1"},
	{"LoopControl", 33554432u, "LiteralInteger1"},
	{"MemoryAccess", 2u, "LiteralInteger1"},
	{"MemoryAccess", 8u, "IdScope1"},
	{"MemoryAccess", 16u, "IdScope1"},
	{"MemoryAccess", 65536u, "IdRef1"},
	{"MemoryAccess", 131072u, "IdRef1"},
	{"ExecutionMode", 0u, "LiteralInteger1"},
	{"ExecutionMode", 17u, "LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{"ExecutionMode", 18u, "LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{"ExecutionMode", 26u, "LiteralInteger1"},
	{"ExecutionMode", 30u, "LiteralInteger1"},
	{"ExecutionMode", 35u, "LiteralInteger1"},
	{"ExecutionMode", 36u, "LiteralInteger1"},
	{"ExecutionMode", 37u, "IdRef1"},
	{"ExecutionMode", 38u, "IdRef1 IdRef1 IdRef1"},
	{"ExecutionMode", 39u, "IdRef1 IdRef1 IdRef1"},
	{"ExecutionMode", 4459u, "LiteralInteger1"},
	{"ExecutionMode", 4460u, "LiteralInteger1"},
	{"ExecutionMode", 4461u, "LiteralInteger1"},
	{"ExecutionMode", 4462u, "LiteralInteger1"},
	{"ExecutionMode", 4463u, "LiteralInteger1"},
	{"ExecutionMode", 5071u, "IdRef1"},
	{"ExecutionMode", 5072u, "IdRef1 IdRef1 IdRef1"},
	{"ExecutionMode", 5073u, "IdRef1"},
	{"ExecutionMode", 5077u, "IdRef1 IdRef1 IdRef1"},
	{"ExecutionMode", 5270u, "LiteralInteger1"},
	{"ExecutionMode", 5618u, "LiteralInteger1"},
	{"ExecutionMode", 5620u, "LiteralInteger1"},
	{"ExecutionMode", 5621u, "LiteralInteger1"},
	{"ExecutionMode", 5622u, "LiteralInteger1"},
	{"ExecutionMode", 5623u, "LiteralInteger1"},
	{"ExecutionMode", 5893u, "LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{"ExecutionMode", 5894u, "LiteralInteger1"},
	{"ExecutionMode", 5896u, "LiteralInteger1"},
	{"ExecutionMode", 5903u, "LiteralInteger1"},
	{"ExecutionMode", 6028u, "IdRef1 IdRef1"},
	{"ExecutionMode", 6154u, "LiteralInteger1"},
	{"ExecutionMode", 6160u, "LiteralInteger1"},
	{"ExecutionMode", 6417u, "LiteralInteger1"},
	{"ExecutionMode", 6461u, "LiteralInteger1"},
	{"ExecutionMode", 6462u, "IdRef1"},
	{"ExecutionMode", 6463u, "NamedMaximumNumberOfRegisters1"},
	{"Decoration", 1u, "LiteralInteger1"},
	{"Decoration", 6u, "LiteralInteger1"},
	{"Decoration", 7u, "LiteralInteger1"},
	{"Decoration", 11u, "BuiltIn1"},
	{"Decoration", 27u, "IdScope1"},
	{"Decoration", 29u, "LiteralInteger1"},
	{"Decoration", 30u, "LiteralInteger1"},
	{"Decoration", 31u, "LiteralInteger1"},
	{"Decoration", 32u, "LiteralInteger1"},
	{"Decoration", 33u, "LiteralInteger1"},
	{"Decoration", 34u, "LiteralInteger1"},
	{"Decoration", 35u, "LiteralInteger1"},
	{"Decoration", 36u, "LiteralInteger1"},
	{"Decoration", 37u, "LiteralInteger1"},
	{"Decoration", 38u, "FunctionParameterAttribute1"},
	{"Decoration", 39u, "FPRoundingMode1"},
	{"Decoration", 40u, "FPFastMathMode1"},
	{"Decoration", 41u, "LiteralString1 LinkageType1"},
	{"Decoration", 43u, "LiteralInteger1"},
	{"Decoration", 44u, "LiteralInteger1"},
	{"Decoration", 45u, "LiteralInteger1"},
	{"Decoration", 46u, "IdRef1"},
	{"Decoration", 47u, "IdRef1"},
	{"Decoration", 5019u, "IdRef1"},
	{"Decoration", 5020u, "IdRef1"},
	{"Decoration", 5091u, "LiteralString1"},
	{"Decoration", 5256u, "LiteralInteger1"},
	{"Decoration", 5599u, "LiteralInteger1"},
	{"Decoration", 5607u, "LiteralString1"},
	{"Decoration", 5625u, "LiteralInteger1"},
	{"Decoration", 5628u, "LiteralInteger1"},
	{"Decoration", 5634u, "IdRef1"},
	{"Decoration", 5635u, "LiteralString1"},
	{"Decoration", 5636u, "LiteralString1"},
	{"Decoration", 5822u, "LiteralInteger1 FPRoundingMode1"},
	{"Decoration", 5823u, "LiteralInteger1 FPDenormMode1"},
	{"Decoration", 5826u, "LiteralString1"},
	{"Decoration", 5827u, "LiteralInteger1"},
	{"Decoration", 5828u, "LiteralInteger1"},
	{"Decoration", 5829u, "LiteralInteger1"},
	{"Decoration", 5832u, "LiteralInteger1"},
	{"Decoration", 5834u, "LiteralString1 LiteralString1"},
	{"Decoration", 5835u, "LiteralInteger1"},
	{"Decoration", 5836u, "LiteralInteger1"},
	{"Decoration", 5883u, "LiteralInteger1"},
	{"Decoration", 5884u, "LiteralInteger1"},
	{"Decoration", 5900u, "LiteralInteger1"},
	{"Decoration", 5902u, "LiteralInteger1"},
	{"Decoration", 5909u, "LiteralInteger1 LiteralInteger1"},
	{"Decoration", 5914u, "IdRef1"},
	{"Decoration", 5915u, "IdRef1"},
	{"Decoration", 5917u, "LiteralInteger1"},
	{"Decoration", 5918u, "LiteralInteger1"},
	{"Decoration", 5919u, "LiteralInteger1"},
	{"Decoration", 5921u, "LiteralInteger1"},
	{"Decoration", 5944u, "LiteralInteger1"},
	{"Decoration", 6080u, "LiteralInteger1 FPOperationMode1"},
	{"Decoration", 6170u, "LiteralFloat1"},
	{"Decoration", 6172u, "LiteralInteger1"},
	{"Decoration", 6173u, "LiteralInteger1 LiteralInteger1 LiteralInteger1"},
	{"Decoration", 6177u, "LiteralInteger1"},
	{"Decoration", 6178u, "LiteralInteger1"},
	{"Decoration", 6179u, "LiteralInteger1"},
	{"Decoration", 6180u, "AccessQualifier1"},
	{"Decoration", 6181u, "LiteralInteger1"},
	{"Decoration", 6182u, "LiteralInteger1"},
	{"Decoration", 6188u, "HostAccessQualifier1 LiteralString1"},
	{"Decoration", 6190u, "InitializationModeQualifier1"},
	{"Decoration", 6191u, "LiteralInteger1"},
	{"Decoration", 6442u, "LiteralInteger1 LoadCacheControl1"},
	{"Decoration", 6443u, "LiteralInteger1 StoreCacheControl1"},
};
static const SpecOp specGlsl[] = {
	{1, "Round", "IdRef1"},
	{2, "RoundEven", "IdRef1"},
	{3, "Trunc", "IdRef1"},
	{4, "FAbs", "IdRef1"},
	{5, "SAbs", "IdRef1"},
	{6, "FSign", "IdRef1"},
	{7, "SSign", "IdRef1"},
	{8, "Floor", "IdRef1"},
	{9, "Ceil", "IdRef1"},
	{10, "Fract", "IdRef1"},
	{11, "Radians", "IdRef1"},
	{12, "Degrees", "IdRef1"},
	{13, "Sin", "IdRef1"},
	{14, "Cos", "IdRef1"},
	{15, "Tan", "IdRef1"},
	{16, "Asin", "IdRef1"},
	{17, "Acos", "IdRef1"},
	{18, "Atan", "IdRef1"},
	{19, "Sinh", "IdRef1"},
	{20, "Cosh", "IdRef1"},
	{21, "Tanh", "IdRef1"},
	{22, "Asinh", "IdRef1"},
	{23, "Acosh", "IdRef1"},
	{24, "Atanh", "IdRef1"},
	{25, "Atan2", "IdRef1 IdRef1"},
	{26, "Pow", "IdRef1 IdRef1"},
	{27, "Exp", "IdRef1"},
	{28, "Log", "IdRef1"},
	{29, "Exp2", "IdRef1"},
	{30, "Log2", "IdRef1"},
	{31, "Sqrt", "IdRef1"},
	{32, "InverseSqrt", "IdRef1"},
	{33, "Determinant", "IdRef1"},
	{34, "MatrixInverse", "IdRef1"},
	{35, "Modf", "IdRef1 IdRef1"},
	{36, "ModfStruct", "IdRef1"},
	{37, "FMin", "IdRef1 IdRef1"},
	{38, "UMin", "IdRef1 IdRef1"},
	{39, "SMin", "IdRef1 IdRef1"},
	{40, "FMax", "IdRef1 IdRef1"},
	{41, "UMax", "IdRef1 IdRef1"},
	{42, "SMax", "IdRef1 IdRef1"},
	{43, "FClamp", "IdRef1 IdRef1 IdRef1"},
	{44, "UClamp", "IdRef1 IdRef1 IdRef1"},
	{45, "SClamp", "IdRef1 IdRef1 IdRef1"},
	{46, "FMix", "IdRef1 IdRef1 IdRef1"},
	{47, "IMix", "IdRef1 IdRef1 IdRef1"},
	{48, "Step", "IdRef1 IdRef1"},
	{49, "SmoothStep", "IdRef1 IdRef1 IdRef1"},
	{50, "Fma", "IdRef1 IdRef1 IdRef1"},
	{51, "Frexp", "IdRef1 IdRef1"},
	{52, "FrexpStruct", "IdRef1"},
	{53, "Ldexp", "IdRef1 IdRef1"},
	{54, "PackSnorm4x8", "IdRef1"},
	{55, "PackUnorm4x8", "IdRef1"},
	{56, "PackSnorm2x16", "IdRef1"},
	{57, "PackUnorm2x16", "IdRef1"},
	{58, "PackHalf2x16", "IdRef1"},
	{59, "PackDouble2x32", "IdRef1"},
	{60, "UnpackSnorm2x16", "IdRef1"},
	{61, "UnpackUnorm2x16", "IdRef1"},
	{62, "UnpackHalf2x16", "IdRef1"},
	{63, "UnpackSnorm4x8", "IdRef1"},
	{64, "UnpackUnorm4x8", "IdRef1"},
	{65, "UnpackDouble2x32", "IdRef1"},
	{66, "Length", "IdRef1"},
	{67, "Distance", "IdRef1 IdRef1"},
	{68, "Cross", "IdRef1 IdRef1"},
	{69, "Normalize", "IdRef1"},
	{70, "FaceForward", "IdRef1 IdRef1 IdRef1"},
	{71, "Reflect", "IdRef1 IdRef1"},
	{72, "Refract", "IdRef1 IdRef1 IdRef1"},
	{73, "FindILsb", "IdRef1"},
	{74, "FindSMsb", "IdRef1"},
	{75, "FindUMsb", "IdRef1"},
	{76, "InterpolateAtCentroid", "IdRef1"},
	{77, "InterpolateAtSample", "IdRef1 IdRef1"},
	{78, "InterpolateAtOffset", "IdRef1 IdRef1"},
	{79, "NMin", "IdRef1 IdRef1"},
	{80, "NMax", "IdRef1 IdRef1"},
	{81, "NClamp", "IdRef1 IdRef1 IdRef1"},
};
static const SpecOp specOpenCl[] = {
	{0, "acos", "IdRef1"},
	{1, "acosh", "IdRef1"},
	{2, "acospi", "IdRef1"},
	{3, "asin", "IdRef1"},
	{4, "asinh", "IdRef1"},
	{5, "asinpi", "IdRef1"},
	{6, "atan", "IdRef1"},
	{7, "atan2", "IdRef1 IdRef1"},
	{8, "atanh", "IdRef1"},
	{9, "atanpi", "IdRef1"},
	{10, "atan2pi", "IdRef1 IdRef1"},
	{11, "cbrt", "IdRef1"},
	{12, "ceil", "IdRef1"},
	{13, "copysign", "IdRef1 IdRef1"},
	{14, "cos", "IdRef1"},
	{15, "cosh", "IdRef1"},
	{16, "cospi", "IdRef1"},
	{17, "erfc", "IdRef1"},
	{18, "erf", "IdRef1"},
	{19, "exp", "IdRef1"},
	{20, "exp2", "IdRef1"},
	{21, "exp10", "IdRef1"},
	{22, "expm1", "IdRef1"},
	{23, "fabs", "IdRef1"},
	{24, "fdim", "IdRef1 IdRef1"},
	{25, "floor", "IdRef1"},
	{26, "fma", "IdRef1 IdRef1 IdRef1"},
	{27, "fmax", "IdRef1 IdRef1"},
	{28, "fmin", "IdRef1 IdRef1"},
	{29, "fmod", "IdRef1 IdRef1"},
	{30, "fract", "IdRef1 IdRef1"},
	{31, "frexp", "IdRef1 IdRef1"},
	{32, "hypot", "IdRef1 IdRef1"},
	{33, "ilogb", "IdRef1"},
	{34, "ldexp", "IdRef1 IdRef1"},
	{35, "lgamma", "IdRef1"},
	{36, "lgamma_r", "IdRef1 IdRef1"},
	{37, "log", "IdRef1"},
	{38, "log2", "IdRef1"},
	{39, "log10", "IdRef1"},
	{40, "log1p", "IdRef1"},
	{41, "logb", "IdRef1"},
	{42, "mad", "IdRef1 IdRef1 IdRef1"},
	{43, "maxmag", "IdRef1 IdRef1"},
	{44, "minmag", "IdRef1 IdRef1"},
	{45, "modf", "IdRef1 IdRef1"},
	{46, "nan", "IdRef1"},
	{47, "nextafter", "IdRef1 IdRef1"},
	{48, "pow", "IdRef1 IdRef1"},
	{49, "pown", "IdRef1 IdRef1"},
	{50, "powr", "IdRef1 IdRef1"},
	{51, "remainder", "IdRef1 IdRef1"},
	{52, "remquo", "IdRef1 IdRef1 IdRef1"},
	{53, "rint", "IdRef1"},
	{54, "rootn", "IdRef1 IdRef1"},
	{55, "round", "IdRef1"},
	{56, "rsqrt", "IdRef1"},
	{57, "sin", "IdRef1"},
	{58, "sincos", "IdRef1 IdRef1"},
	{59, "sinh", "IdRef1"},
	{60, "sinpi", "IdRef1"},
	{61, "sqrt", "IdRef1"},
	{62, "tan", "IdRef1"},
	{63, "tanh", "IdRef1"},
	{64, "tanpi", "IdRef1"},
	{65, "tgamma", "IdRef1"},
	{66, "trunc", "IdRef1"},
	{67, "half_cos", "IdRef1"},
	{68, "half_divide", "IdRef1 IdRef1"},
	{69, "half_exp", "IdRef1"},
	{70, "half_exp2", "IdRef1"},
	{71, "half_exp10", "IdRef1"},
	{72, "half_log", "IdRef1"},
	{73, "half_log2", "IdRef1"},
	{74, "half_log10", "IdRef1"},
	{75, "half_powr", "IdRef1 IdRef1"},
	{76, "half_recip", "IdRef1"},
	{77, "half_rsqrt", "IdRef1"},
	{78, "half_sin", "IdRef1"},
	{79, "half_sqrt", "IdRef1"},
	{80, "half_tan", "IdRef1"},
	{81, "native_cos", "IdRef1"},
	{82, "native_divide", "IdRef1 IdRef1"},
	{83, "native_exp", "IdRef1"},
	{84, "native_exp2", "IdRef1"},
	{85, "native_exp10", "IdRef1"},
	{86, "native_log", "IdRef1"},
	{87, "native_log2", "IdRef1"},
	{88, "native_log10", "IdRef1"},
	{89, "native_powr", "IdRef1 IdRef1"},
	{90, "native_recip", "IdRef1"},
	{91, "native_rsqrt", "IdRef1"},
	{92, "native_sin", "IdRef1"},
	{93, "native_sqrt", "IdRef1"},
	{94, "native_tan", "IdRef1"},
	{141, "s_abs", "IdRef1"},
	{142, "s_abs_diff", "IdRef1 IdRef1"},
	{143, "s_add_sat", "IdRef1 IdRef1"},
	{144, "u_add_sat", "IdRef1 IdRef1"},
	{145, "s_hadd", "IdRef1 IdRef1"},
	{146, "u_hadd", "IdRef1 IdRef1"},
	{147, "s_rhadd", "IdRef1 IdRef1"},
	{148, "u_rhadd", "IdRef1 IdRef1"},
	{149, "s_clamp", "IdRef1 IdRef1 IdRef1"},
	{150, "u_clamp", "IdRef1 IdRef1 IdRef1"},
	{151, "clz", "IdRef1"},
	{152, "ctz", "IdRef1"},
	{153, "s_mad_hi", "IdRef1 IdRef1 IdRef1"},
	{154, "u_mad_sat", "IdRef1 IdRef1 IdRef1"},
	{155, "s_mad_sat", "IdRef1 IdRef1 IdRef1"},
	{156, "s_max", "IdRef1 IdRef1"},
	{157, "u_max", "IdRef1 IdRef1"},
	{158, "s_min", "IdRef1 IdRef1"},
	{159, "u_min", "IdRef1 IdRef1"},
	{160, "s_mul_hi", "IdRef1 IdRef1"},
	{161, "rotate", "IdRef1 IdRef1"},
	{162, "s_sub_sat", "IdRef1 IdRef1"},
	{163, "u_sub_sat", "IdRef1 IdRef1"},
	{164, "u_upsample", "IdRef1 IdRef1"},
	{165, "s_upsample", "IdRef1 IdRef1"},
	{166, "popcount", "IdRef1"},
	{167, "s_mad24", "IdRef1 IdRef1 IdRef1"},
	{168, "u_mad24", "IdRef1 IdRef1 IdRef1"},
	{169, "s_mul24", "IdRef1 IdRef1"},
	{170, "u_mul24", "IdRef1 IdRef1"},
	{201, "u_abs", "IdRef1"},
	{202, "u_abs_diff", "IdRef1 IdRef1"},
	{203, "u_mul_hi", "IdRef1 IdRef1"},
	{204, "u_mad_hi", "IdRef1 IdRef1 IdRef1"},
	{95, "fclamp", "IdRef1 IdRef1 IdRef1"},
	{96, "degrees", "IdRef1"},
	{97, "fmax_common", "IdRef1 IdRef1"},
	{98, "fmin_common", "IdRef1 IdRef1"},
	{99, "mix", "IdRef1 IdRef1 IdRef1"},
	{100, "radians", "IdRef1"},
	{101, "step", "IdRef1 IdRef1"},
	{102, "smoothstep", "IdRef1 IdRef1 IdRef1"},
	{103, "sign", "IdRef1"},
	{104, "cross", "IdRef1 IdRef1"},
	{105, "distance", "IdRef1 IdRef1"},
	{106, "length", "IdRef1"},
	{107, "normalize", "IdRef1"},
	{108, "fast_distance", "IdRef1 IdRef1"},
	{109, "fast_length", "IdRef1"},
	{110, "fast_normalize", "IdRef1"},
	{186, "bitselect", "IdRef1 IdRef1 IdRef1"},
	{187, "select", "IdRef1 IdRef1 IdRef1"},
	{171, "vloadn", "IdRef1 IdRef1 LiteralInteger1"},
	{172, "vstoren", "IdRef1 IdRef1 IdRef1"},
	{173, "vload_half", "IdRef1 IdRef1"},
	{174, "vload_halfn", "IdRef1 IdRef1 LiteralInteger1"},
	{175, "vstore_half", "IdRef1 IdRef1 IdRef1"},
	{176, "vstore_half_r", "IdRef1 IdRef1 IdRef1 FPRoundingMode1"},
	{177, "vstore_halfn", "IdRef1 IdRef1 IdRef1"},
	{178, "vstore_halfn_r", "IdRef1 IdRef1 IdRef1 FPRoundingMode1"},
	{179, "vloada_halfn", "IdRef1 IdRef1 LiteralInteger1"},
	{180, "vstorea_halfn", "IdRef1 IdRef1 IdRef1"},
	{181, "vstorea_halfn_r", "IdRef1 IdRef1 IdRef1 FPRoundingMode1"},
	{182, "shuffle", "IdRef1 IdRef1"},
	{183, "shuffle2", "IdRef1 IdRef1 IdRef1"},
	{184, "printf", "IdRef1 IdRef*"},
	{185, "prefetch", "IdRef1 IdRef1"},
};
#endif
