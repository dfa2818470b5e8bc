use crate::{cases::*, entries, samples::*, vp::*};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::EncodingSet;

const L: usize = b(5, 7);
entries! {
    h_c05p_file, 1, "FileMetaData; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<FileMetaData, L>() }
    h_c05p_column, 1, "ColumnChunk; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<ColumnChunk, L>() }
    h_c05p_page, 1, "PageHeader; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<PageHeader, L>() }
    h_c05p_schema, 1, "SchemaElement; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<SchemaElement, L>() }
    h_c05p_logical, 2, "LogicalType; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<LogicalType, L>() }
    h_c05p_index, 1, "OffsetIndex and ColumnIndex; 0 to 5 (thorough: 7) arbitrary bytes" => {
        if choose(2) == 0 { free::<OffsetIndex, L>() } else { free::<ColumnIndex, L>() }
    }
    h_c05p_encodings, 2, "EncodingSet; 0 to 6 (thorough: 8) arbitrary bytes" => { free::<EncodingSet, { b(6, 8) }>() }
    h_c05p_crypto, 1, "FileCryptoMetaData and GeospatialStatistics; 0 to 5 (thorough: 7) arbitrary bytes" => {
        if choose(2) == 0 { free::<FileCryptoMetaData, L>() } else { free::<GeospatialStatistics, L>() }
    }
    h_c05p_w_file, 2, "a fixed FileMetaData encoding with any 2 consecutive bytes replaced by arbitrary ones" => { window::<FileMetaData, 2>(META) }
    h_c05p_w_page, 2, "a fixed PageHeader encoding with any 2 consecutive bytes replaced by arbitrary ones" => { window::<PageHeader, 2>(PAGE) }
    h_c05p_w_index, 2, "a fixed ColumnIndex encoding with any 2 consecutive bytes replaced by arbitrary ones" => { window::<ColumnIndex, 2>(INDEX) }
}
